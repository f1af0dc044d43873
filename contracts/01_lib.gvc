// Library functions: contracts assumed

// ---- bitset ----
ghost field bitset.BitSet.bits (Array Int Bool)
ghost field bitset.BitSet.n int

def bhas(b, k) = k < b.n && b.bits[k]

theory nobits
  (declare-fun nobits () (Array Int Bool))
  (assert (forall ((i Int)) (! (not (select nobits i)) :pattern ((select nobits i)))))
end

extern bitset.New(length) (b)
  ensures b != nil && fresh(b) && b.n == length && b.bits == nobits

extern bitset.(*BitSet).Test(b, i) (r)
  requires b != nil
  ensures r == (i < b.n && b.bits[i])

extern bitset.(*BitSet).Set(b, i) (r)
  requires b != nil && i < 18446744073709551615
  modifies b.bits, b.n
  ensures b.bits == store(old(b.bits), i, true) && b.n == max(old(b.n), i + 1) && r == b

extern bitset.(*BitSet).Clear(b, i) (r)
  requires b != nil
  modifies b.bits
  ensures b.bits == store(old(b.bits), i, false) && r == b

extern bitset.(*BitSet).NextClear(b, i) (r, ok)
  requires b != nil
  ensures ok ==> i <= r && r < b.n && !b.bits[r] && (forall k int :: i <= k && k < r ==> b.bits[k])
  ensures !ok ==> r == 0 && (forall k int :: i <= k && k < b.n ==> b.bits[k])

extern bitset.(*BitSet).NextSet(b, i) (r, ok)
  requires b != nil
  ensures ok ==> i <= r && r < b.n && b.bits[r] && (forall k int :: i <= k && k < r ==> !b.bits[k])
  ensures !ok ==> r == 0 && (forall k int :: i <= k && k < b.n ==> !b.bits[k])

extern bitset.(*BitSet).All(b) (r)
  requires b != nil
  ensures r <==> (forall k int :: 0 <= k && k < b.n ==> b.bits[k])

extern bitset.(*BitSet).Count(b) (r)
  requires b != nil
  ensures 0 <= r && r <= b.n && (r == b.n <==> (forall k int :: 0 <= k && k < b.n ==> b.bits[k]))

extern bitset.(*BitSet).Len(b) (r)
  requires b != nil
  ensures r == b.n

// ---- hash ----
theory sha1
  (declare-fun sha1 (Str) Str)
  (assert (forall ((s Str)) (! (= (slen (sha1 s)) 20) :pattern ((sha1 s)))))
end
ghost field hash.Hash.data str

extern sha1.New() (h)
  ensures h != nil && fresh(h) && h.data == ""
extern hash.Hash.Write(h, p) (n, err)
  modifies h.data
  ensures h.data == cat(old(h.data), bytes(p)) && n == len(p) && err == nil
extern hash.Hash.Sum(h, b) (r)
  ensures bytes(r) == cat(bytes(b), sha1(h.data)) && len(r) == len(b) + 20
extern sha1.Sum(data) (r)
  ensures bytes(r) == sha1(bytes(data))
extern bytes.Compare(a, b) (r)
  ensures r == 0 <==> bytes(a) == bytes(b)

// ---- files ----
extern os.(*File).WriteAt(f, b, off) (n, err)
  requires f != nil && off >= 0
  ensures err == nil ==> n == len(b)
extern os.(*File).Close(f) (err)
extern multierr.Append(a, b) (err)
  ensures (err == nil) == (a == nil && b == nil)


// bit k of a number
theory wbit
  (declare-fun wbit (Int Int) Bool)
end
extern bitset.From(buf) (b)
  ensures b != nil && fresh(b) && b.n == 64 * len(buf)
  ensures forall k int :: 0 <= k && k < 64 * len(buf) ==> (b.bits[k] <==> wbit(buf[k / 64], k % 64))
