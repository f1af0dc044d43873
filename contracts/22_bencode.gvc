// pkg/bencode: parsing

// Where the elements of a document D end. pend(D, p, d) is the position after
// the element at p with d levels of nesting left, or -1 when there is none;
// lend and dend the position after the end of a list or dictionary whose next
// item is at q. They recurse along the document; unfold happens only at
// positions named by un*.
theory bdig
  (declare-fun at (Str Int) Int)
  (assert (forall ((D Str) (i Int)) (! (= (at D i) (ite (and (<= 0 i) (< i (slen D))) (sat D i) 0)) :pattern ((at D i)))))
  (declare-fun dig (Str Int) Bool)
  (assert (forall ((D Str) (i Int)) (! (= (dig D i) (and (<= 48 (at D i)) (<= (at D i) 57))) :pattern ((dig D i)))))
  (declare-fun numend (Str Int) Int)
  (assert (forall ((D Str) (i Int)) (! (and (<= i (numend D i)) (not (dig D (numend D i)))) :pattern ((numend D i)))))
  (assert (forall ((D Str) (i Int) (k Int)) (! (=> (and (<= i k) (< k (numend D i))) (dig D k)) :pattern ((numend D i) (sat D k)))))
  (declare-fun numval (Str Int Int) Int)
  (assert (forall ((D Str) (i Int)) (! (= (numval D i i) 0) :pattern ((numval D i i)))))
  (assert (forall ((D Str) (i Int) (j Int) (k Int)) (! (=> (and (<= i j) (= k (+ j 1))) (= (numval D i k) (+ (* 10 (numval D i j)) (at D j) (- 48)))) :pattern ((numval D i j) (numval D i k)))))
  (assert (forall ((D Str) (i Int) (j Int) (k Int)) (! (=> (and (<= i j) (< j k) (<= k (numend D i))) (<= (+ (* 10 (numval D i j)) (at D j) (- 48)) (numval D i k))) :pattern ((numval D i j) (numval D i k)))))
  (assert (forall ((D Str) (i Int) (j Int)) (! (=> (and (<= i j) (<= j (numend D i))) (>= (numval D i j) 0)) :pattern ((numval D i j)))))
end

theory ben
  (declare-fun strend (Str Int) Int)
  (assert (forall ((D Str) (p Int)) (! (= (strend D p) (let ((j (numend D p))) (let ((n (numval D p j))) (ite (and (dig D p) (<= n 9223372036854775807) (= (at D j) 58) (<= n (- (slen D) (+ j 1)))) (+ j 1 n) (- 1))))) :pattern ((strend D p)))))
  (declare-fun strval (Str Int) Str)
  (assert (forall ((D Str) (p Int)) (! (= (strval D p) (sub D (+ (numend D p) 1) (strend D p))) :pattern ((strval D p)))))
  (declare-fun intfrom (Str Int) Int)
  (assert (forall ((D Str) (p Int)) (! (= (intfrom D p) (ite (= (at D (+ p 1)) 45) (+ p 2) (+ p 1))) :pattern ((intfrom D p)))))
  (declare-fun intend (Str Int) Int)
  (assert (forall ((D Str) (p Int)) (! (= (intend D p) (let ((q (intfrom D p))) (let ((j (numend D q))) (let ((n (numval D q j))) (ite (and (dig D q) (<= n (ite (= q (+ p 2)) 9223372036854775808 9223372036854775807)) (= (at D j) 101)) (+ j 1) (- 1)))))) :pattern ((intend D p)))))
  (declare-fun intval (Str Int) Int)
  (assert (forall ((D Str) (p Int)) (! (= (intval D p) (let ((q (intfrom D p))) (let ((n (numval D q (numend D q)))) (ite (= q (+ p 2)) (- n) n)))) :pattern ((intval D p)))))
  (declare-fun pend (Str Int Int) Int)
  (declare-fun lend (Str Int Int) Int)
  (declare-fun dend (Str Int Int) Int)
  (declare-fun unfp (Str Int Int) Bool)
  (declare-fun unfl (Str Int Int) Bool)
  (declare-fun unfd (Str Int Int) Bool)
  (assert (forall ((D Str) (p Int) (d Int)) (! (and (unfp D p d) (= (pend D p d) (ite (<= d 0) (- 1) (ite (= (at D p) 108) (lend D (+ p 1) (- d 1)) (ite (= (at D p) 100) (dend D (+ p 1) (- d 1)) (ite (= (at D p) 105) (intend D p) (strend D p))))))) :pattern ((unfp D p d)))))
  (assert (forall ((D Str) (q Int) (d Int)) (! (and (unfl D q d) (= (lend D q d) (ite (or (< q 0) (<= (slen D) q)) (- 1) (ite (= (at D q) 101) (+ q 1) (ite (< (pend D q d) 0) (- 1) (lend D (pend D q d) d)))))) :pattern ((unfl D q d)))))
  (assert (forall ((D Str) (q Int) (d Int)) (! (and (unfd D q d) (= (dend D q d) (ite (or (< q 0) (<= (slen D) q)) (- 1) (ite (= (at D q) 101) (+ q 1) (ite (or (< (strend D q) 0) (< (pend D (strend D q) d) 0)) (- 1) (dend D (pend D (strend D q) d) d)))))) :pattern ((unfd D q d)))))
end

// lpos: position of item k of a list whose items start at q.
// dlast: position of the value of the last entry with a key among the entries
// of a dictionary from q on, -1 when there is none.
theory benitems
  (declare-fun lpos (Str Int Int Int) Int)
  (assert (forall ((D Str) (q Int) (d Int)) (! (= (lpos D q d 0) q) :pattern ((lpos D q d 0)))))
  (assert (forall ((D Str) (q Int) (d Int) (j Int) (k Int)) (! (=> (and (<= 0 j) (= k (+ j 1))) (= (lpos D q d k) (pend D (lpos D q d j) d))) :pattern ((lpos D q d j) (lpos D q d k)))))
  (declare-fun dlast (Str Int Int Str) Int)
  (assert (forall ((D Str) (q Int) (d Int) (x Str)) (! (= (dlast D q d x) (ite (or (< q 0) (<= (slen D) q) (= (at D q) 101) (< (strend D q) 0) (< (pend D (strend D q) d) 0)) (- 1) (ite (>= (dlast D (pend D (strend D q) d) d x) 0) (dlast D (pend D (strend D q) d) d x) (ite (= x (strval D q)) (strend D q) (- 1))))) :pattern ((unfd D q d) (dlast D q d x)))))
end

ghost const bencode.ListElement.doc str
ghost const bencode.ListElement.pos int
ghost const bencode.ListElement.lev int
ghost const bencode.DictElement.doc str
ghost const bencode.DictElement.pos int
ghost const bencode.DictElement.lev int

def asList(v) = asptr(ival(v), "bencode.ListElement")
def asDict(v) = asptr(ival(v), "bencode.DictElement")
// v is the element at position p of D, parsed with d levels left
def got(v, D, p, d) = ite(at(D, p) == 108, is(v, "*bencode.ListElement") && ival(v) != 0 && asList(v).doc == D && asList(v).pos == p && asList(v).lev == d, ite(at(D, p) == 100, is(v, "*bencode.DictElement") && ival(v) != 0 && asDict(v).doc == D && asDict(v).pos == p && asDict(v).lev == d, ite(at(D, p) == 105, is(v, "bencode.IntElement") && unbox_int(ival(v)) == intval(D, p), is(v, "bencode.StringElement") && unbox_str(ival(v)) == strval(D, p))))

def scanOK(s) = s != nil && s.start == s.current && 0 <= s.current && s.current <= len(s.bencode)
def doc(s) = bytes(s.bencode)

extern bencode.b2s(b) (r)
  ensures r == bytes(b)

func bencode.(*scanner).number(s, limit) (n, err)
  flag optional
  safety C13
  terminates C13
  requires scanOK(s)
  requires limit == 9223372036854775807 || limit == 9223372036854775808
  modifies s.start, s.current
  inv s.start == old(s.start)
  inv old(s.current) <= s.current && s.current <= len(s.bencode)
  inv (n int) 0 <= n && n <= limit
  decreases len(s.bencode) - s.current
  inv (n int) n == numval(doc(s), old(s.current), s.current)
  inv forall k int {sat(doc(s), k)} :: old(s.current) <= k && k < s.current ==> dig(doc(s), k)
  ensures scanOK(s) || err != nil
  ensures[C14] err == nil <==> dig(doc(s), old(s.current)) && numval(doc(s), old(s.current), numend(doc(s), old(s.current))) <= limit
  ensures err == nil ==> s.current >= old(s.current) && 0 <= n && n <= limit
  ensures[C14] err == nil ==> s.current == numend(doc(s), old(s.current)) && n == numval(doc(s), old(s.current), s.current)

func bencode.(*scanner).readString(s) (r, err)
  flag optional
  safety C13
  requires scanOK(s)
  modifies s.start, s.current
  ensures err == nil ==> scanOK(s) && s.current > old(s.current)
  ensures[C14] err == nil <==> strend(doc(s), old(s.current)) >= 0
  ensures[C14] err == nil ==> s.current == strend(doc(s), old(s.current)) && r == strval(doc(s), old(s.current))

func bencode.(*scanner).readInt(s) (r, err)
  flag optional
  safety C13
  requires scanOK(s) && at(doc(s), s.current) == 105
  modifies s.start, s.current
  ensures err == nil ==> scanOK(s) && s.current > old(s.current)
  ensures[C14] err == nil <==> intend(doc(s), old(s.current)) >= 0
  ensures[C14] err == nil ==> s.current == intend(doc(s), old(s.current)) && r == intval(doc(s), old(s.current))

func bencode.(*scanner).readList(s) (r, err)
  flag optional
  safety C13
  terminates C13
  measure 2 * (1000 - s.depth) + 1
  requires scanOK(s) && at(doc(s), s.current) == 108 && 0 <= s.depth && s.depth <= 1000
  modifies s.start, s.current, s.depth
  inv scanOK(s) && s.depth == old(s.depth)
  inv s.current > old(s.current)
  decreases len(s.bencode) - s.current
  inv[C14] unfl(doc(s), s.current, 1000 - s.depth)
  inv[C14] lend(doc(s), s.current, 1000 - s.depth) == lend(doc(s), old(s.current) + 1, 1000 - s.depth)
  inv[C14] (l any[]bencode.Bencode) s.current == lpos(doc(s), old(s.current) + 1, 1000 - s.depth, len(l))
  inv[C14] (l any[]bencode.Bencode) forall k int {lpos(doc(s), old(s.current) + 1, 1000 - s.depth, k)} :: 0 <= k && k < len(l) ==> got(l[k], doc(s), lpos(doc(s), old(s.current) + 1, 1000 - s.depth, k), 1000 - s.depth)
  on return
    set r.doc := doc(s)
    set r.pos := old(s.current)
    set r.lev := 1000 - old(s.depth) + 1
  ensures err == nil ==> scanOK(s) && s.current > old(s.current) && r != nil && fresh(r)
  ensures s.depth == old(s.depth)
  ensures[C14] err == nil <==> lend(doc(s), old(s.current) + 1, 1000 - s.depth) >= 0
  ensures[C14] err == nil ==> s.current == lend(doc(s), old(s.current) + 1, 1000 - s.depth)
  ensures[C14] err == nil ==> r.doc == doc(s) && r.pos == old(s.current) && r.lev == 1001 - s.depth
  ensures[C14] err == nil ==> bytes(r.raw) == doc(s)[old(s.current):s.current]
  ensures[C14] err == nil ==> at(doc(s), lpos(doc(s), old(s.current) + 1, 1000 - s.depth, len(r.Value))) == 101
  ensures[C14] err == nil ==> (forall k int :: 0 <= k && k < len(r.Value) ==> got(r.Value[k], doc(s), lpos(doc(s), old(s.current) + 1, 1000 - s.depth, k), 1000 - s.depth))

func bencode.(*scanner).Next(s) (b, err)
  safety C13
  terminates C13
  measure 2 * (1000 - s.depth)
  requires scanOK(s) && 0 <= s.depth && s.depth <= 1000
  requires[C14] unfp(doc(s), s.current, 1000 - s.depth)
  modifies s.start, s.current, s.depth
  ensures s.depth == old(s.depth)
  ensures err == nil ==> scanOK(s) && s.current > old(s.current)
  ensures err == nil ==> b != nil && (is(b, "*bencode.DictElement") || is(b, "*bencode.ListElement") ==> ival(b) != 0)
  ensures[C14] err == nil <==> pend(doc(s), old(s.current), 1000 - s.depth) >= 0
  ensures[C14] err == nil ==> s.current == pend(doc(s), old(s.current), 1000 - s.depth)
  ensures[C14] err == nil ==> got(b, doc(s), old(s.current), 1000 - s.depth)

func bencode.(*scanner).readDict(s) (r, err)
  flag optional
  safety C13
  terminates C13
  measure 2 * (1000 - s.depth) + 1
  requires scanOK(s) && at(doc(s), s.current) == 100 && 0 <= s.depth && s.depth <= 1000
  modifies s.start, s.current, s.depth
  inv scanOK(s) && s.depth == old(s.depth)
  inv s.current > old(s.current)
  decreases len(s.bencode) - s.current
  inv[C14] unfd(doc(s), s.current, 1000 - s.depth)
  inv[C14] dend(doc(s), s.current, 1000 - s.depth) == dend(doc(s), old(s.current) + 1, 1000 - s.depth)
  inv[C14] (m any map[string]bencode.Bencode) forall k str {k in m} :: k in m ==> dlast(doc(s), old(s.current) + 1, 1000 - s.depth, k) >= 0
  inv[C14] (m any map[string]bencode.Bencode) forall k str {dlast(doc(s), s.current, 1000 - s.depth, k)} :: dlast(doc(s), s.current, 1000 - s.depth, k) >= 0 ==> dlast(doc(s), old(s.current) + 1, 1000 - s.depth, k) == dlast(doc(s), s.current, 1000 - s.depth, k)
  inv[C14] (m any map[string]bencode.Bencode) forall k str {dlast(doc(s), old(s.current) + 1, 1000 - s.depth, k)} :: dlast(doc(s), old(s.current) + 1, 1000 - s.depth, k) >= 0 ==> k in m || dlast(doc(s), s.current, 1000 - s.depth, k) >= 0
  inv[C14] (m any map[string]bencode.Bencode) forall k str {k in m} :: k in m && dlast(doc(s), s.current, 1000 - s.depth, k) < 0 ==> got(m[k], doc(s), dlast(doc(s), old(s.current) + 1, 1000 - s.depth, k), 1000 - s.depth)
  on return
    set r.doc := doc(s)
    set r.pos := old(s.current)
    set r.lev := 1000 - old(s.depth) + 1
  ensures err == nil ==> scanOK(s) && s.current > old(s.current) && r != nil && fresh(r)
  ensures s.depth == old(s.depth)
  ensures[C14] err == nil <==> dend(doc(s), old(s.current) + 1, 1000 - s.depth) >= 0
  ensures[C14] err == nil ==> s.current == dend(doc(s), old(s.current) + 1, 1000 - s.depth)
  ensures[C14] err == nil ==> r.doc == doc(s) && r.pos == old(s.current) && r.lev == 1001 - s.depth
  ensures[C14] err == nil ==> bytes(r.raw) == doc(s)[old(s.current):s.current]
  ensures[C14] err == nil ==> (forall k str :: k in r.value <==> dlast(doc(s), old(s.current) + 1, 1000 - s.depth, k) >= 0)
  ensures[C14] err == nil ==> (forall k str :: k in r.value ==> got(r.value[k], doc(s), dlast(doc(s), old(s.current) + 1, 1000 - s.depth, k), 1000 - s.depth))

func bencode.Parse(data) (b, err)
  safety C13
  terminates C13
  ensures err == nil ==> b != nil && (is(b, "*bencode.DictElement") || is(b, "*bencode.ListElement") ==> ival(b) != 0)
  ensures[C14] err == nil <==> len(data) > 0 && pend(bytes(data), 0, 1000) >= 0
  ensures[C14] err == nil ==> got(b, bytes(data), 0, 1000)
