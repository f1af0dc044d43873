// pkg/bencode: unmarshalling through reflection
//
// What is assumed of package reflect. A Value is opaque: vtyp is its type (0
// for the zero Value), vset says that it can be set, vnro that it was not
// reached through an unexported field. Types are opaque too: tkind, telem,
// tkey, tnum (fields), tfield, texp (exported), tbits.
theory refl
  (declare-fun vtyp (Int) Int)
  (declare-fun vset (Int) Bool)
  (declare-fun vnro (Int) Bool)
  (declare-fun vlen (Int) Int)
  (declare-fun tkind (Int) Int)
  (declare-fun telem (Int) Int)
  (declare-fun tkey (Int) Int)
  (declare-fun tnum (Int) Int)
  (declare-fun tfield (Int Int) Int)
  (declare-fun texp (Int Int) Bool)
  (declare-fun tbits (Int) Int)
  (declare-fun ptrto (Int) Int)
  (declare-fun assignable (Int Int) Bool)
  (declare-fun bytesT () Int)
  (declare-fun stringT () Int)
  (declare-fun rtype (Int) Int)
  (declare-fun vof (Int Int) Int)
  (declare-fun vfield (Int Int) Int)
  (declare-fun vfieldof (Int) Int)
  (declare-fun vfieldidx (Int) Int)
  (declare-fun vindex (Int Int) Int)
  (declare-fun vindexof (Int) Int)
  (declare-fun vindexidx (Int) Int)
  (declare-fun velem (Int) Int)
  (declare-fun vaddr (Int) Int)
  (assert (= (tkind 0) 0))
  (assert (= (vtyp 0) 0))
  (declare-fun hgt (Int Int) Int)
  (declare-fun indoc (Int Int) Bool)
  (assert (forall ((a Int) (b Int)) (! (<= 0 (hgt a b)) :pattern ((hgt a b)))))
  (assert (forall ((v Int)) (! (not (= (velem v) v)) :pattern ((velem v)))))
  (assert (forall ((T Int)) (! (and (= (tkind (ptrto T)) 22) (= (telem (ptrto T)) T)) :pattern ((ptrto T)))))
  (assert (forall ((v Int)) (! (=> (vset v) (vnro v)) :pattern ((vset v)))))
  (assert (forall ((v Int) (i Int)) (! (and (= (vfieldof (vfield v i)) v) (= (vfieldidx (vfield v i)) i)) :pattern ((vfield v i)))))
  (assert (forall ((v Int) (i Int)) (! (and (= (vindexof (vindex v i)) v) (= (vindexidx (vindex v i)) i)) :pattern ((vindex v i)))))
  (assert (forall ((v Int)) (! (= (velem (vaddr v)) v) :pattern ((vaddr v)))))
  (assert (forall ((S Int) (T Int)) (! (=> (or (= S T) (and (= (tkind T) 22) (= S (ptrto (telem T)))) (and (= S bytesT) (= (tkind T) 23) (= (telem T) (telem bytesT)))) (assignable S T)) :pattern ((assignable S T)))))
  (declare-fun okT (Int) Bool)
  (assert (forall ((T Int)) (! (=> (and (okT T) (or (= (tkind T) 21) (= (tkind T) 22) (= (tkind T) 23))) (okT (telem T))) :pattern ((okT T) (telem T)))))
  (assert (forall ((T Int)) (! (=> (and (okT T) (= (tkind T) 23) (= (tkind (telem T)) 8)) (= (telem T) (telem bytesT))) :pattern ((okT T) (tkind (telem T))))))
  (assert (forall ((T Int)) (! (=> (and (okT T) (= (tkind T) 21)) (= (tkey T) stringT)) :pattern ((okT T) (tkind T)))))
  (assert (forall ((T Int) (i Int)) (! (=> (and (okT T) (= (tkind T) 25) (<= 0 i) (< i (tnum T))) (okT (tfield T i))) :pattern ((okT T) (tfield T i)))))
end

transparent reflect.StructField

// nilp[v]: the pointer held at v is nil
ghost var nilp (Array Int Bool)

extern reflect.ValueOf(i) (v)
  ensures v == vof(tag(i), ival(i)) && vtyp(v) == rtype(tag(i)) && vnro(v)
  ensures is(i, "[]byte") ==> vtyp(v) == bytesT() && vtyp(v) != 0
  ensures is(i, "string") ==> vtyp(v) == stringT() && vtyp(v) != 0
extern reflect.TypeOf(i) (t)
  ensures i != nil ==> t != nil && ival(t) == rtype(tag(i))
extern reflect.(Value).Kind(v) (k)
  ensures k == tkind(vtyp(v))
extern reflect.(Value).Type(v) (t)
  requires vtyp(v) != 0
  ensures t != nil && ival(t) == vtyp(v)
extern reflect.(Value).Elem(v) (r)
  requires tkind(vtyp(v)) == 22 || tkind(vtyp(v)) == 20
  ensures r == velem(v) && vnro(r) == vnro(v)
  ensures tkind(vtyp(v)) == 22 ==> ite(nilp[v], vtyp(r) == 0, vtyp(r) == telem(vtyp(v)) && vtyp(r) != 0 && vset(r) == vnro(v))
extern reflect.(Value).NumField(v) (n)
  requires tkind(vtyp(v)) == 25
  ensures n == tnum(vtyp(v)) && n >= 0
extern reflect.(Value).Field(v, i) (r)
  requires tkind(vtyp(v)) == 25 && 0 <= i && i < tnum(vtyp(v))
  ensures r == vfield(v, i) && vtyp(r) == tfield(vtyp(v), i) && vtyp(r) != 0 && vset(r) == (vset(v) && texp(vtyp(v), i))
extern reflect.(Value).CanSet(v) (r)
  ensures r == vset(v)
extern reflect.(Value).IsNil(v) (r)
  requires tkind(vtyp(v)) == 18 || tkind(vtyp(v)) == 19 || tkind(vtyp(v)) == 20 || tkind(vtyp(v)) == 21 || tkind(vtyp(v)) == 22 || tkind(vtyp(v)) == 23 || tkind(vtyp(v)) == 26
  ensures r == nilp[v]
extern reflect.(Value).Set(v, x)
  requires vset(v) && vtyp(x) != 0 && vnro(x) && assignable(vtyp(x), vtyp(v))
  modifies nilp
  ensures nilp == store(old(nilp), v, old(nilp)[x])
extern reflect.(Value).SetString(v, s)
  requires vset(v) && tkind(vtyp(v)) == 24
extern reflect.(Value).SetInt(v, n)
  requires vset(v) && 2 <= tkind(vtyp(v)) && tkind(vtyp(v)) <= 6
extern reflect.(Value).SetUint(v, n)
  requires vset(v) && 7 <= tkind(vtyp(v)) && tkind(vtyp(v)) <= 12
extern reflect.(Value).Addr(v) (r)
  requires vset(v)
  ensures r == vaddr(v) && vtyp(r) == ptrto(vtyp(v)) && vnro(r) && !nilp[r]
extern reflect.(Value).Interface(v) (i)
  requires vtyp(v) != 0 && vnro(v)
  ensures tkind(vtyp(v)) != 20 ==> i != nil && vof(tag(i), ival(i)) == v && rtype(tag(i)) == vtyp(v)
extern reflect.New(t) (v)
  requires t != nil
  ensures vtyp(v) == ptrto(ival(t)) && vtyp(v) != 0 && vnro(v) && !nilp[v]
extern reflect.MakeSlice(t, n, c) (v)
  requires t != nil && tkind(ival(t)) == 23 && 0 <= n && n <= c
  ensures vtyp(v) == ival(t) && vtyp(v) != 0 && vnro(v) && vlen(v) == n
extern reflect.(Value).Index(v, i) (r)
  requires tkind(vtyp(v)) == 23 && 0 <= i && i < vlen(v)
  ensures r == vindex(v, i) && vtyp(r) == telem(vtyp(v)) && vtyp(r) != 0 && vset(r) == vnro(v)
extern reflect.MakeMap(t) (v)
  requires t != nil && tkind(ival(t)) == 21
  ensures vtyp(v) == ival(t) && vtyp(v) != 0 && vnro(v)
extern reflect.(Value).SetMapIndex(v, k, e)
  requires tkind(vtyp(v)) == 21 && vnro(v) && vnro(k) && vnro(e) && assignable(vtyp(k), tkey(vtyp(v))) && (vtyp(e) != 0 ==> assignable(vtyp(e), telem(vtyp(v))))
extern reflect.Type.Kind(t) (k)
  requires t != nil
  ensures k == tkind(ival(t))
extern reflect.Type.Elem(t) (r)
  requires t != nil && (tkind(ival(t)) == 17 || tkind(ival(t)) == 18 || tkind(ival(t)) == 21 || tkind(ival(t)) == 22 || tkind(ival(t)) == 23)
  ensures r != nil && ival(r) == telem(ival(t))
extern reflect.Type.Field(t, i) (r)
  requires t != nil && tkind(ival(t)) == 25 && 0 <= i && i < tnum(ival(t))
  ensures r.Tag == fstr("field tag", ival(t), i) && r.Name == fstr("field name", ival(t), i)
extern reflect.Type.Bits(t) (n)
  requires t != nil && 2 <= tkind(ival(t)) && tkind(ival(t)) <= 12
  ensures n == tbits(ival(t)) && 8 <= n && n <= 64
extern reflect.Type.String(t) (s)
  requires t != nil
extern reflect.(StructTag).Get(t, k) (s)
  ensures s == fstr("tag value", t, k)
extern strings.Split(s, sep) (r)
  requires len(sep) > 0
  ensures len(r) == fint("split number", s, sep) && len(r) >= 1 && fresh(r) && off(r) == 0
  ensures forall k int :: 0 <= k && k < len(r) ==> r[k] == fstr("split part", s, sep, k)

// the text and raw form of a value that is not known more closely
extern bencode.Bencode.String(b) (s)
  requires wf(b)
  ensures s == fstr("element text", tag(b), ival(b))
extern bencode.Bencode.Raw(b) (r)
  requires wf(b)
  ensures bytes(r) == fstr("element raw", tag(b), ival(b))

// the document was parsed when the objects below tree0 were allocated
ghost var tree0 int
def wf(v) = v != nil && (is(v, "*bencode.DictElement") || is(v, "*bencode.ListElement") ==> 0 < ival(v) && ival(v) < tree0 && indoc(tag(v), ival(v)))

// lists and dictionaries hold no nil (the elements of a parsed document, by
// induction on its nesting: readList and readDict add only what Next returned)
def lobj(r) = asptr(r, "bencode.ListElement")
def dobj(r) = asptr(r, "bencode.DictElement")
def below(v, t, r) = wf(v) && 0 <= hgt(tag(v), ival(v)) && hgt(tag(v), ival(v)) < hgt(t, r)
def treeOK() = tree0 <= top() && (forall r int {indoc(tagof("*bencode.ListElement"), r)} :: 0 < r && r < tree0 && indoc(tagof("*bencode.ListElement"), r) ==> arr(lobj(r).Value) < tree0) && (forall r int {indoc(tagof("*bencode.DictElement"), r)} :: 0 < r && r < tree0 && indoc(tagof("*bencode.DictElement"), r) ==> ref(dobj(r).value) < tree0) && (forall r int, k int :: 0 < r && r < tree0 && indoc(tagof("*bencode.ListElement"), r) && 0 <= k && k < len(lobj(r).Value) ==> below(lobj(r).Value[k], tagof("*bencode.ListElement"), r)) && (forall r int, k str :: 0 < r && r < tree0 && indoc(tagof("*bencode.DictElement"), r) && k in dobj(r).value ==> below(dobj(r).value[k], tagof("*bencode.DictElement"), r))

extern strconv.ParseInt(s, base, bits) (n, err)
  requires 0 <= bits && bits <= 64
  ensures (err == nil) == fbool("parse int ok", s, base, bits)
  ensures err == nil ==> n == fint("parse int", s, base, bits)

func bencode.isScalar(v) (r)
  flag optional
  ensures[C16] r <==> is(v, "bencode.StringElement") || is(v, "bencode.IntElement")

// the text and raw form are functions of the element
func bencode.(StringElement).String(e) (s)
  flag optional
  ensures s == e

def tgtTyp(target) = telem(rtype(tag(target)))
def tgtStruct(target) = velem(vof(tag(target), ival(target)))
def isDict(v) = is(v, "*bencode.DictElement")
def isList(v) = is(v, "*bencode.ListElement")
def isScal(v) = is(v, "bencode.StringElement") || is(v, "bencode.IntElement")
def elText(v) = fstr("element text", tag(v), ival(v))
def tagText(t, i) = fstr("tag value", fstr("field tag", t, i), "ben")
def keyOf(t, i) = fstr("split part", tagText(t, i), ",", 0)
def mayMiss(t, i) = exists k int {fstr("split part", tagText(t, i), ",", k)} :: 1 <= k && k < fint("split number", tagText(t, i), ",") && fstr("split part", tagText(t, i), ",", k) == "optional"
def hasKey(v, key) = key in asDict(v).value
def wantedField(t, i) = texp(t, i) && tagText(t, i) != ""
def missingField(t, i, b) = wantedField(t, i) && (!isDict(b) || !hasKey(b, keyOf(t, i)) && !mayMiss(t, i))

func bencode.processTarget(target, ben) (err)
  safety C13
  terminates C13
  measure 2 * hgt(tag(ben), ival(ben))
  requires okT(tgtTyp(target)) && wf(ben) && treeOK()
  modifies nilp
  inv treeOK()
  // fields of the struct that were filled from the value of their key
  ghost filled (Array Int Int) = noints
  ghost bad bool = false
  on bencode.setField(x, v, n) (e)
    assert[C16] x == vfield(tgtStruct(target), vfieldidx(x)) && wantedField(tgtTyp(target), vfieldidx(x))
    assert[C16] isDict(ben) && hasKey(ben, keyOf(tgtTyp(target), vfieldidx(x))) && v == asDict(ben).value[keyOf(tgtTyp(target), vfieldidx(x))]
    set filled := ite(e == nil, store(filled, vfieldidx(x), 1), filled)
    set bad := bad || e != nil
  inv[C16] !bad
  decreases (i int) tnum(tgtTyp(target)) - i
  inv[C16] (i int) forall j int {texp(tgtTyp(target), j)} :: 0 <= j && j < i && wantedField(tgtTyp(target), j) ==> !missingField(tgtTyp(target), j, ben) && (hasKey(ben, keyOf(tgtTyp(target), j)) ==> filled[j] == 1)
  maybe[C16] (n int, i any int) forall k int {fstr("split part", tagText(tgtTyp(target), i), ",", k)} :: 1 <= k && k < n + 1 ==> fstr("split part", tagText(tgtTyp(target), i), ",", k) != "optional"
  maybe[C16] (n int, i any int) forall k int {fstr("split part", tagText(tgtTyp(target), i), ",", k)} :: 1 <= k && k < n ==> fstr("split part", tagText(tgtTyp(target), i), ",", k) != "optional"
  inv[C16] (o bool, i any int) o ==> mayMiss(tgtTyp(target), i)
  maybe[C16] (o bool, n int, i any int) (forall k int {fstr("split part", tagText(tgtTyp(target), i), ",", k)} :: 1 <= k && k < n && fstr("split part", tagText(tgtTyp(target), i), ",", k) == "optional" ==> o)
  maybe[C16] (o bool, n int, i any int) (forall k int {fstr("split part", tagText(tgtTyp(target), i), ",", k)} :: 1 <= k && k < n + 1 && fstr("split part", tagText(tgtTyp(target), i), ",", k) == "optional" ==> o)
  ensures[C16] err == nil ==> tkind(rtype(tag(target))) == 22 && tkind(tgtTyp(target)) == 25
  ensures[C16] err == nil ==> (forall j int {texp(tgtTyp(target), j)} :: 0 <= j && j < tnum(tgtTyp(target)) && wantedField(tgtTyp(target), j) ==> !missingField(tgtTyp(target), j, ben) && (hasKey(ben, keyOf(tgtTyp(target), j)) ==> filled[j] == 1))
  ensures[C16] err != nil && tkind(rtype(tag(target))) == 22 && tkind(tgtTyp(target)) == 25 ==> nilp[vof(tag(target), ival(target))] || bad || (exists j int {texp(tgtTyp(target), j)} :: 0 <= j && j < tnum(tgtTyp(target)) && missingField(tgtTyp(target), j, ben))

// where the value of a field goes: pointers are followed once
def isPtr(f) = tkind(vtyp(f)) == 22
def tgtVal(f) = ite(isPtr(f), velem(f), f)
def tgtElem(f) = ite(isPtr(f), telem(vtyp(f)), vtyp(f))
def isIntT(t) = 2 <= tkind(t) && tkind(t) <= 6
def isUintT(t) = 7 <= tkind(t) && tkind(t) <= 11
def isBytesT(t) = tkind(t) == 23 && tkind(telem(t)) == 8
def misfit(t, v) = ite(tkind(t) == 24, !isScal(v), ite(isIntT(t), !isScal(v) || !fbool("parse int ok", elText(v), 0, tbits(t)), ite(isUintT(t), !isScal(v) || !fbool("parse uint ok", elText(v), 0, tbits(t)), ite(isBytesT(t), false, ite(tkind(t) == 23, !isList(v), ite(tkind(t) == 25 || tkind(t) == 21, !isDict(v), true))))))

func bencode.setField(f, value, name) (err)
  safety C13
  terminates C13
  measure 2 * hgt(tag(value), ival(value)) + 1
  requires vtyp(f) != 0 && vset(f) && okT(vtyp(f)) && wf(value) && treeOK()
  modifies nilp
  inv treeOK()
  ghost done int = 0
  ghost kids (Array Int Int) = noints
  ghost bad bool = false
  ghost rawv int = 0
  ghost rawok bool = false
  on reflect.ValueOf(i) (r)
    set rawv := r
    set rawok := is(i, "[]byte") && bytes(unbox(i, "[]byte")) == fstr("element raw", tag(value), ival(value))
  on reflect.(Value).SetString(x, s) ()
    assert[C16] done == 0 && x == tgtVal(f) && isScal(value) && s == elText(value)
    set done := 1
  on reflect.(Value).SetInt(x, n) ()
    assert[C16] done == 0 && x == tgtVal(f) && !misfit(tgtElem(f), value) && n == fint("parse int", elText(value), 0, tbits(tgtElem(f)))
    set done := 1
  on reflect.(Value).SetUint(x, n) ()
    assert[C16] done == 0 && x == tgtVal(f) && !misfit(tgtElem(f), value) && n == fint("parse uint", elText(value), 0, tbits(tgtElem(f)))
    set done := 1
  on reflect.(Value).Set(x, y) ()
    assert[C16] done == 0 && (x == tgtVal(f) || x == f && nilp[f])
    assert[C16] x == tgtVal(f) && isBytesT(tgtElem(f)) ==> rawok && y == rawv
    assert[C16] x == tgtVal(f) && tkind(tgtElem(f)) == 23 && !isBytesT(tgtElem(f)) ==> isList(value) && vlen(y) == len(asList(value).Value) && (forall k int :: 0 <= k && k < vlen(y) ==> kids[k] == y)
    set done := ite(x == tgtVal(f), 1, 0)
  on bencode.setField(x, v, n) (e)
    assert[C16] tkind(tgtElem(f)) == 23 ==> isList(value) && x == vindex(vindexof(x), vindexidx(x)) && v == asList(value).Value[vindexidx(x)]
    set kids := ite(e == nil, store(kids, vindexidx(x), vindexof(x)), kids)
    set bad := bad || e != nil
  on bencode.processTarget(t, b) (e)
    assert[C16] done == 0 && tkind(tgtElem(f)) == 25 && vof(tag(t), ival(t)) == vaddr(tgtVal(f)) && tag(b) == tag(value) && ival(b) == ival(value)
    set done := ite(e == nil, 1, 0)
    set bad := bad || e != nil
  inv[C16] !bad && done == 0
  decreases (i int) len(asList(value).Value) - i
  inv[C16] (i int, y any reflect.Value) forall k int :: 0 <= k && k < i ==> kids[k] == y
  ensures[C16] err == nil ==> done == 1 && !misfit(tgtElem(f), value)
  ensures[C16] err != nil ==> bad || misfit(tgtElem(f), value)

// callers rely on the contract of bencode.Unmarshal in 61_http.gvc
func bencode.Unmarshal@body(data, target) (err)
  safety C13
  terminates C13
  note the target's byte slices are []byte and its maps have string keys; a parsed document is a finite tree without nil elements (by induction from readList, readDict and Next)
  requires okT(tgtTyp(target))
  modifies nilp
  ghost bad bool = false
  ghost noParse bool = false
  ghost ran bool = false
  on bencode.Parse(d) (b, e)
    assert[C16] d == data
    set noParse := e != nil
    set assume := tree0 == top() && treeOK() && (isDict(b) || isList(b) ==> 0 <= ival(b) && ival(b) < tree0 && indoc(tag(b), ival(b)))
  on bencode.processTarget(t, b) (e)
    assert[C16] tag(t) == tag(target) && ival(t) == ival(target)
    set ran := true
    set bad := e != nil
  ensures[C16] (err == nil) == (ran && !bad && !noParse)
