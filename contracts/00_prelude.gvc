// Theories: strings of bytes, encodings, boxes. Declarations and axioms are
// raw SMT-LIB; "text" is a string literal.

theory str
  (declare-fun slen (Str) Int)
  (declare-fun sat (Str Int) Int)
  (declare-fun streq (Str Str) Bool)
  (declare-fun sdiff (Str Str) Int)
  (assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
  (assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
  (assert (forall ((a Str) (b Str)) (! (=> (streq a b) (= a b)) :pattern ((streq a b)))))
  (assert (forall ((a Str) (b Str)) (! (or (streq a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((streq a b)))))
end

theory cat
  (declare-fun cat (Str Str) Str)
  (assert (forall ((a Str) (b Str)) (! (= (slen (cat a b)) (+ (slen a) (slen b))) :pattern ((cat a b)))))
  (assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen a))) (= (sat (cat a b) i) (sat a i))) :pattern ((sat (cat a b) i)))))
  (assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= (slen a) i) (< i (+ (slen a) (slen b)))) (= (sat (cat a b) i) (sat b (- i (slen a))))) :pattern ((sat (cat a b) i)))))
end

theory mkstr
  (declare-fun mkstr ((Array Int Int) Int Int) Str)
  (assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (slen (mkstr a o n)) n)) :pattern ((mkstr a o n)))))
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (<= (select a (+ o i)) 255)) (= (sat (mkstr a o n) i) (select a (+ o i)))) :pattern ((sat (mkstr a o n) i)))))
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (mkstr a o n) i) (mod (select a (+ o i)) 256))) :pattern ((sat (mkstr a o n) i)))))
end

theory strbytes
  (declare-fun strbytes (Str) (Array Int Int))
  (assert (forall ((s Str) (i Int)) (! (= (select (strbytes s) i) (sat s i)) :pattern ((select (strbytes s) i)))))
end

theory sub
  (declare-fun sub (Str Int Int) Str)
  (assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (sub s l h)) (- h l))) :pattern ((sub s l h)))))
  (assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s)) (<= 0 i) (< i (- h l))) (= (sat (sub s l h) i) (sat s (+ l i)))) :pattern ((sat (sub s l h) i)))))
end

theory be
  (declare-fun be1 (Int) Str)
  (declare-fun be2 (Int) Str)
  (declare-fun be4 (Int) Str)
  (declare-fun be8 (Int) Str)
  (assert (forall ((v Int)) (! (and (= (slen (be1 v)) 1) (= (sat (be1 v) 0) (mod v 256))) :pattern ((be1 v)))))
  (assert (forall ((v Int)) (! (and (= (slen (be2 v)) 2) (= (sat (be2 v) 0) (mod (div v 256) 256)) (= (sat (be2 v) 1) (mod v 256))) :pattern ((be2 v)))))
  (assert (forall ((v Int)) (! (and (= (slen (be4 v)) 4) (= (sat (be4 v) 0) (mod (div v 16777216) 256)) (= (sat (be4 v) 1) (mod (div v 65536) 256)) (= (sat (be4 v) 2) (mod (div v 256) 256)) (= (sat (be4 v) 3) (mod v 256))) :pattern ((be4 v)))))
  (assert (forall ((v Int)) (! (and (= (slen (be8 v)) 8) (= (sat (be8 v) 0) (mod (div v 72057594037927936) 256)) (= (sat (be8 v) 1) (mod (div v 281474976710656) 256)) (= (sat (be8 v) 2) (mod (div v 1099511627776) 256)) (= (sat (be8 v) 3) (mod (div v 4294967296) 256)) (= (sat (be8 v) 4) (mod (div v 16777216) 256)) (= (sat (be8 v) 5) (mod (div v 65536) 256)) (= (sat (be8 v) 6) (mod (div v 256) 256)) (= (sat (be8 v) 7) (mod v 256))) :pattern ((be8 v)))))
  (assert (forall ((v Int)) (! (=> (and (<= 0 v) (< v 65536)) (= v (+ (* 256 (sat (be2 v) 0)) (sat (be2 v) 1)))) :pattern ((be2 v)))))
  (assert (forall ((v Int)) (! (=> (and (<= 0 v) (< v 4294967296)) (= v (+ (* 16777216 (sat (be4 v) 0)) (* 65536 (sat (be4 v) 1)) (* 256 (sat (be4 v) 2)) (sat (be4 v) 3)))) :pattern ((be4 v)))))
  (assert (forall ((v Int)) (! (=> (and (<= 0 v) (< v 18446744073709551616)) (= v (+ (* 72057594037927936 (sat (be8 v) 0)) (* 281474976710656 (sat (be8 v) 1)) (* 1099511627776 (sat (be8 v) 2)) (* 4294967296 (sat (be8 v) 3)) (* 16777216 (sat (be8 v) 4)) (* 65536 (sat (be8 v) 5)) (* 256 (sat (be8 v) 6)) (* 1 (sat (be8 v) 7))))) :pattern ((be8 v)))))
end

theory le
  (declare-fun le2 (Int) Str)
  (declare-fun le4 (Int) Str)
  (declare-fun le8 (Int) Str)
end

// A value in an interface and the interface's data word.
theory box
  (declare-fun box_int (Int) Int)
  (declare-fun unbox_int (Int) Int)
  (declare-fun box_str (Str) Int)
  (declare-fun unbox_str (Int) Str)
  (assert (forall ((v Int)) (! (= (unbox_int (box_int v)) v) :pattern ((box_int v)))))
  (assert (forall ((v Str)) (! (= (unbox_str (box_str v)) v) :pattern ((box_str v)))))
end

theory strlt
  (declare-fun strlt (Str Str) Bool)
end

// big-endian value of the bytes of a string
def u16at(s, i) = s[i]*256 + s[i+1]
def u32at(s, i) = s[i]*16777216 + s[i+1]*65536 + s[i+2]*256 + s[i+3]
def u64at(s, i) = u32at(s, i)*4294967296 + u32at(s, i+4)

// ---- library functions without effect on the verified state ----
pure pkg:fmt pkg:errors pkg:go.uber.org/... pkg:log pkg:time pkg:context pkg:math/rand
pure pkg:strings pkg:github.com/google/uuid pkg:code.cloudfoundry.org/bytefmt
pure runtime.Gosched
pure error.Error
pure fmt.Stringer.String

extern strings.Repeat(s, n) (r)
  requires n >= 0
  ensures len(r) == n * len(s)

ghost field bytes.Buffer.content str

extern bytes.(*Buffer).Write(b, p) (n, err)
  requires b != nil
  modifies b.content
  ensures b.content == cat(old(b.content), bytes(p)) && n == len(p) && err == nil

extern bytes.(*Buffer).WriteByte(b, c) (err)
  requires b != nil
  modifies b.content
  ensures b.content == cat(old(b.content), be1(c)) && err == nil

extern bytes.(*Buffer).WriteString(b, s) (n, err)
  requires b != nil
  modifies b.content
  ensures b.content == cat(old(b.content), s) && n == len(s) && err == nil

extern bytes.(*Buffer).Bytes(b) (p)
  requires b != nil
  ensures bytes(p) == b.content && len(p) == len(b.content)

extern bytes.(*Buffer).Len(b) (n)
  ensures n == len(b.content)

extern bytes.(*Buffer).String(b) (s)
  ensures s == b.content

ghost field strings.Builder.content str

extern strings.(*Builder).Write(b, p) (n, err)
  requires b != nil
  modifies b.content
  ensures b.content == cat(old(b.content), bytes(p)) && n == len(p) && err == nil

extern strings.(*Builder).WriteByte(b, c) (err)
  requires b != nil
  modifies b.content
  ensures b.content == cat(old(b.content), be1(c)) && err == nil

extern strings.(*Builder).WriteString(b, s) (n, err)
  requires b != nil
  modifies b.content
  ensures b.content == cat(old(b.content), s) && n == len(s) && err == nil

extern strings.(*Builder).Len(b) (n)
  ensures n == len(b.content)

extern strings.(*Builder).Grow(b, n) ()
  requires n >= 0

extern strings.(*Builder).String(b) (s)
  ensures s == b.content

extern bytes.Equal(a, b) (r)
  ensures r == (bytes(a) == bytes(b))

extern io.Writer.Write(w, p) (n, err)
  ensures 0 <= n && n <= len(p)

extern fmt.Errorf(format, a) (err)
  ensures err != nil
extern errors.New(text) (err)
  ensures err != nil
extern zap.(*Logger).With(l, fields) (r)
  ensures r != nil
