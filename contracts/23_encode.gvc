// pkg/bencode: encoding

// What is assumed of decimal numbers (strconv): canonical digits.
theory decval when dec numend
  (assert (forall ((n Int)) (! (>= (slen (dec n)) 1) :pattern ((dec n)))))
  (assert (forall ((n Int)) (! (=> (>= n 0) (and (= (numend (dec n) 0) (slen (dec n))) (= (numval (dec n) 0 (slen (dec n))) n) (dig (dec n) 0))) :pattern ((dec n)))))
  (assert (forall ((n Int)) (! (=> (< n 0) (and (= (slen (dec n)) (+ 1 (slen (dec (- n))))) (= (sat (dec n) 0) 45))) :pattern ((dec n)))))
  (assert (forall ((n Int) (k Int)) (! (=> (and (< n 0) (<= 1 k) (< k (slen (dec n)))) (= (sat (dec n) k) (sat (dec (- n)) (- k 1)))) :pattern ((sat (dec n) k)))))
end

// The value of digits depends on nothing but the digits (induction on m; the
// step is the lemma samedigits_step).
theory samedig
  (declare-fun samedig (Str Int Str Int Int) Bool)
  (declare-fun sdd (Str Int Str Int Int) Int)
  (assert (forall ((D Str) (i Int) (E Str) (j Int) (m Int)) (! (=> (and (>= m 0) (>= i 0) (>= j 0) (samedig D i E j m)) (= (numval D i (+ i m)) (numval E j (+ j m)))) :pattern ((samedig D i E j m)))))
  (assert (forall ((D Str) (i Int) (E Str) (j Int) (m Int)) (! (or (samedig D i E j m) (and (<= 0 (sdd D i E j m)) (< (sdd D i E j m) m) (not (= (at D (+ i (sdd D i E j m))) (at E (+ j (sdd D i E j m))))))) :pattern ((samedig D i E j m)))))
end

lemma[C15] samedigits_base(D Str, i int, E Str, j int): numval(D, i, i) == numval(E, j, j)
lemma[C15] samedigits_step(D Str, i int, E Str, j int, m int): m >= 0 && numval(D, i, i + m) == numval(E, j, j + m); at(D, i + m) == at(E, j + m);
      numval(D, i, i + m + 1) == numval(E, j, j + m + 1)

theory benc
  (declare-fun encof (Int Int) Str)
  (declare-fun ienc (Int) Str)
  (assert (forall ((n Int)) (! (= (ienc n) (cat "i" (cat (dec n) "e"))) :pattern ((ienc n)))))
  (declare-fun senc (Str) Str)
  (assert (forall ((s Str)) (! (= (senc s) (cat (dec (slen s)) (cat ":" s))) :pattern ((senc s)))))
end
theory encl
  (declare-fun encl ((Array Int Int) (Array Int Int) Int Int) Str)
  (assert (forall ((a (Array Int Int)) (b (Array Int Int)) (o Int)) (! (= (encl a b o o) "l") :pattern ((encl a b o o)))))
  (assert (forall ((a (Array Int Int)) (b (Array Int Int)) (o Int) (j Int)) (! (=> (<= o j) (= (encl a b o (+ j 1)) (ite (= (select a j) 0) (encl a b o j) (cat (encl a b o j) (encof (select a j) (select b j)))))) :pattern ((encl a b o j) (select a j)))))
end
// slices.Sorted(maps.Keys(m)): the keys in byte order
theory sortedkeys
  (declare-fun sortedkeys ((Array Str Bool)) (Array Int Str))
  (declare-fun keyspec ((Array Str Bool) Int) Bool)
  (assert (forall ((d (Array Str Bool)) (n Int) (i Int)) (! (=> (and (keyspec d n) (<= 0 i) (< i n)) (select d (select (sortedkeys d) i))) :pattern ((keyspec d n) (select (sortedkeys d) i)))))
  (assert (forall ((d (Array Str Bool)) (n Int) (i Int) (j Int)) (! (=> (and (keyspec d n) (<= 0 i) (< i j) (< j n)) (strlt (select (sortedkeys d) i) (select (sortedkeys d) j))) :pattern ((keyspec d n) (select (sortedkeys d) i) (select (sortedkeys d) j)))))
end
// the entries of a dictionary in the order of the sorted keys
theory encd
  (declare-fun encd ((Array Int Str) (Array Str Int) (Array Str Int) Int) Str)
  (assert (forall ((k (Array Int Str)) (a (Array Str Int)) (b (Array Str Int))) (! (= (encd k a b 0) "d") :pattern ((encd k a b 0)))))
  (assert (forall ((k (Array Int Str)) (a (Array Str Int)) (b (Array Str Int)) (j Int)) (! (=> (<= 0 j) (= (encd k a b (+ j 1)) (ite (= (select a (select k j)) 0) (encd k a b j) (cat (encd k a b j) (cat (senc (select k j)) (encof (select a (select k j)) (select b (select k j)))))))) :pattern ((encd k a b j) (select k j)))))
end

// the encoding of a child, the induction hypothesis of the Encode methods
extern bencode.Bencode.Encode(b) (s)
  ensures s == encof(tag(b), ival(b))

func bencode.(IntElement).Encode(e) (s)
  props C15
  ensures[C15] s == ienc(e)

func bencode.(StringElement).Encode(e) (s)
  props C15
  ensures[C15] s == senc(e)

func bencode.(ListElement).Encode(e) (s)
  props C15
  inv (i int, s str) s == encl(elems(e.Value, "tag"), elems(e.Value, "val"), off(e.Value), off(e.Value) + i)
  inv (i int, s str) s == encl(elems(e.Value, "tag"), elems(e.Value, "val"), off(e.Value), off(e.Value) + i + 1)
  inv (i int, sb any *strings.Builder) sb.content == encl(elems(e.Value, "tag"), elems(e.Value, "val"), off(e.Value), off(e.Value) + i)
  inv (i int, sb any *bytes.Buffer) sb.content == encl(elems(e.Value, "tag"), elems(e.Value, "val"), off(e.Value), off(e.Value) + i)
  ensures[C15] s == cat(encl(elems(e.Value, "tag"), elems(e.Value, "val"), off(e.Value), off(e.Value) + len(e.Value)), "e")

func bencode.(DictElement).Encode(e) (s)
  props C15
  inv (i int, s str) s == encd(sortedkeys(dom(e.value)), vals(e.value, "tag"), vals(e.value, "val"), i)
  inv (i int, s str) s == encd(sortedkeys(dom(e.value)), vals(e.value, "tag"), vals(e.value, "val"), i + 1)
  inv (i int, sb any *strings.Builder) sb.content == encd(sortedkeys(dom(e.value)), vals(e.value, "tag"), vals(e.value, "val"), i)
  inv (i int, sb any *bytes.Buffer) sb.content == encd(sortedkeys(dom(e.value)), vals(e.value, "tag"), vals(e.value, "val"), i)
  ensures[C15] s == cat(encd(sortedkeys(dom(e.value)), vals(e.value, "tag"), vals(e.value, "val"), len(e.value)), "e")

// ---- round trip ----
def inDoc(D, p, e) = 0 <= p && p + len(e) <= len(D) && (forall k int {sat(D, k)} :: p <= k && k < p + len(e) ==> D[k] == e[k - p])
// digits of n at p of D, followed by something else, are read as n
def digitsAt(D, p, n, e) = e == dec(n) && n >= 0 && p >= 0 && inDoc(D, p, e)
lemma[C15] dec_samedigits(D Str, p int, n int, e Str): digitsAt(D, p, n, e); samedig(D, p, e, 0, len(e))
lemma[C15] dec_numend(D Str, p int, n int, e Str, q int, d int): digitsAt(D, p, n, e); q == p + len(e) && !dig(D, q) && d == D[q] && numend(D, p) == numend(D, p) ;
      numend(D, p) == q
lemma[C15] dec_numval(D Str, p int, n int, e Str, q int): digitsAt(D, p, n, e); samedig(D, p, e, 0, len(e)) && q == p + len(e); numval(D, p, q) == n
// the encoding of an integer at p of D is parsed to its end, as the integer
def numberAt(D, p, n, q) = numend(D, p) == q && numval(D, p, q) == n && dig(D, p)
lemma[C15] int_roundtrip(D Str, p int, n int, q int): 0 <= n && n <= 9223372036854775807 && p >= 0 && q < len(D) && q > p && D[p] == 105 && numberAt(D, p + 1, n, q) && D[q] == 101;
      intend(D, p) == q + 1 && intval(D, p) == n
lemma[C15] negative_roundtrip(D Str, p int, n int, q int): 0 < n && n <= 9223372036854775808 && p >= 0 && q < len(D) && q > p + 1 && D[p] == 105 && D[p+1] == 45 && numberAt(D, p + 2, n, q) && D[q] == 101;
      intend(D, p) == q + 1 && intval(D, p) == 0 - n
lemma[C15] string_roundtrip(D Str, p int, s Str, q int): p >= 0 && q + 1 + len(s) <= len(D) && q > p && numberAt(D, p, len(s), q) && D[q] == 58 && (forall k int :: 0 <= k && k < len(s) ==> D[q + 1 + k] == s[k]) && len(s) <= 4611686018427387904;
      strend(D, p) == q + 1 + len(s) && strval(D, p) == s
// items and entries: what follows the encoding of a child is parsed from its end
lemma[C15] list_step(D Str, q int, d int, r int): 0 <= q && q < len(D) && D[q] != 101 && pend(D, q, d) == r && r >= 0 && unfl(D, q, d); lend(D, q, d) == lend(D, r, d)
lemma[C15] list_end(D Str, q int, d int): 0 <= q && q < len(D) && D[q] == 101 && unfl(D, q, d); lend(D, q, d) == q + 1
lemma[C15] dict_step(D Str, q int, d int, r int): 0 <= q && q < len(D) && D[q] != 101 && strend(D, q) >= 0 && pend(D, strend(D, q), d) == r && r >= 0 && unfd(D, q, d); dend(D, q, d) == dend(D, r, d)
lemma[C15] dict_end(D Str, q int, d int): 0 <= q && q < len(D) && D[q] == 101 && unfd(D, q, d); dend(D, q, d) == q + 1
