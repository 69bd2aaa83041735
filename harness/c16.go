package mls

// vfItem is one entry of a committed list: its encoding, who sent it, what it
// does, and the facts the legality rules are about.
type vfItem struct {
	kind   int // RFC 9420 proposal type
	p      []byte
	by     int
	change *rChange
	leaf   int    // leaf updated or removed
	id     []byte // signature key or PSK identity
}

func vfPSK(id []byte) []byte { return rCat(rU16(4), id) }

// vfItems is the number of entries vfPick offers.
const vfItems = 18

func (x *vfMixed) vfPick(n int, keys [3]*rKP) vfItem {
	g := x.g
	switch n {
	case 0, 1, 2:
		k := keys[n]
		return vfItem{kind: 1, p: rAdd(k), by: g.me, change: &rChange{add: k, remove: -1}, id: k.leaf.sigKey}
	case 3: // somebody else proposes the same newcomer
		k := keys[0]
		return vfItem{kind: 1, p: rAdd(k), by: 1, change: &rChange{add: k, remove: -1}, id: k.leaf.sigKey}
	case 4, 5, 6:
		i := n - 4
		l, _ := vfUpdateLeaf(x.as(i))
		return vfItem{kind: 2, p: rUpdate(l), by: i, change: &rChange{by: i, update: l, remove: -1}, leaf: i}
	case 7, 8, 9:
		i := n - 7
		return vfItem{kind: 3, p: rRemove(uint32(i)), by: g.me, change: &rChange{remove: i}, leaf: i}
	case 10: // a member asks for its own removal
		return vfItem{kind: 3, p: rRemove(2), by: 2, change: &rChange{remove: 2}, leaf: 2}
	case 11, 12:
		id := rCat(rU8(1), rVec(vfBytes("psk", 1)), rVec(vfBytes("nonce", 1)))
		return vfItem{kind: 4, p: vfPSK(id), by: g.me, id: id}
	case 13:
		id := rCat(rU8(2), rU8(vfU8("usage")&1+1), rVec(vfBytes("pskGroup", 1)), rU64(vfU64("pskEpoch")), rVec(vfBytes("nonce", 1)))
		return vfItem{kind: 4, p: vfPSK(id), by: 1, id: id}
	case 14:
		return vfItem{kind: 7, p: rCat(rU16(7), rVec(rU16(0xff00), rVec(vfBytes("ext", 1)))), by: g.me}
	case 15:
		return vfItem{kind: 7, p: rCat(rU16(7), rVec()), by: 1}
	case 16:
		return vfItem{kind: 5, p: rCat(rU16(5), rVec(vfBytes("regroup", 2)), rU16(1), rU16(uint16(g.s.id)), rVec()), by: vfChoice("by", 2)}
	default:
		return vfItem{kind: 6, p: rCat(rU16(6), rVec(vfBytes("kem", 2))), by: vfChoice("by", 2)}
	}
}

// vfLegal decides RFC 9420 section 12.2 for the list.
func vfLegal(me int, list []vfItem) bool {
	ok := true
	for i, a := range list {
		switch a.kind {
		case 2, 3:
			ok = ok && a.leaf != me
		case 5:
			ok = ok && len(list) == 1
		case 6:
			ok = false
		}
		for _, b := range list[:i] {
			switch {
			case (a.kind == 2 || a.kind == 3) && (b.kind == 2 || b.kind == 3):
				ok = ok && a.leaf != b.leaf
			case a.kind == 7 && b.kind == 7:
				ok = false
			case a.kind == b.kind && (a.kind == 1 || a.kind == 4):
				ok = ok && !vfEqual(a.id, b.id)
			}
		}
	}
	return ok
}

// vfChanges lists the effects in which no leaf is touched twice and the
// committer not at all, so that an unlawful list still has a consistent
// commit.
func vfChanges(me int, list []vfItem) []rChange {
	var ch []rChange
	var done []int
	for _, it := range list {
		if it.change == nil {
			continue
		}
		if it.kind == 3 {
			if it.leaf == me || rHasInt(done, it.leaf) {
				continue
			}
			done = append(done, it.leaf)
		}
		ch = append(ch, *it.change)
	}
	return ch
}

// Lists of proposals as a member sees them: consistent commits of all kinds
// of lists are refused when the list is illegal, and lists of membership
// changes are followed when it is not.
func vfH_C16_lists() {
	x := vfShared(vfSuites[0], 1, 3)
	s := x.g.s
	keys := [3]*rKP{rKeyPackage(s, "n1"), rKeyPackage(s, "n2"), rKeyPackage(s, "n3")}
	// the second newcomer has the signature key of the first
	keys[1].leaf.sigKey, keys[1].sigPriv = keys[0].leaf.sigKey, keys[0].sigPriv
	keys[1].signAll()
	n := 1 + vfChoice("len", vfBound("len", 2, 3))
	var list []vfItem
	var enc [][]byte
	allRef := vfChoice("byref", 2) == 1
	simple := true
	for i := 0; i < n; i++ {
		it := x.vfPick(vfChoice("item", vfItems), keys)
		if allRef || it.by != x.g.me {
			enc = append(enc, rByRef(x.propose(x.as(it.by), it.p, 1)))
		} else {
			enc = append(enc, rByValue(it.p))
		}
		simple = simple && it.change != nil
		list = append(list, it)
	}
	c := x.g.commit(enc, vfChanges(x.g.me, list)).withPath().finish(1)
	legal := vfLegal(x.g.me, list)
	if legal && !simple {
		vfReach("unclaimed")
		return
	}
	x.vfTry(c, legal, "accepted exactly if the list is legal")
	vfReach("end")
}

// Lists that need a path are refused without one.
func vfH_C16_path() {
	x := vfShared(vfSuites[0], 1, 3)
	s := x.g.s
	keys := [3]*rKP{rKeyPackage(s, "n1"), rKeyPackage(s, "n2"), rKeyPackage(s, "n3")}
	n := vfChoice("len", 3)
	var list []vfItem
	var enc [][]byte
	allRef := vfChoice("byref", 2) == 1
	need, adds := n == 0, true
	for i := 0; i < n; i++ {
		it := x.vfPick([]int{0, 2, 5, 6, 8, 9, 10, 11, 14}[vfChoice("item", 9)], keys)
		if allRef || it.by != x.g.me {
			enc = append(enc, rByRef(x.propose(x.as(it.by), it.p, 1)))
		} else {
			enc = append(enc, rByValue(it.p))
		}
		need = need || it.kind == 2 || it.kind == 3 || it.kind == 7
		adds = adds && it.kind == 1
		list = append(list, it)
	}
	vfAssume(vfLegal(x.g.me, list))
	vfAssume(need || adds)
	c := x.g.commit(enc, vfChanges(x.g.me, list)).finish(1)
	x.vfTry(c, !need, "a commit without a path is accepted exactly if none is needed")
	vfReach("end")
}

// A commit by reference uses the proposals referred to, with their senders,
// among several pending ones.
func vfH_C16_references() {
	x := vfShared(vfSuites[0], 1, 4)
	l1, _ := vfUpdateLeaf(x.as(1))
	l2, _ := vfUpdateLeaf(x.as(2))
	l3, _ := vfUpdateLeaf(x.as(2))
	k := rKeyPackage(x.g.s, "new")
	props := []vfItem{
		{kind: 2, p: rUpdate(l1), by: 1, change: &rChange{by: 1, update: l1, remove: -1}, leaf: 1},
		{kind: 2, p: rUpdate(l2), by: 2, change: &rChange{by: 2, update: l2, remove: -1}, leaf: 2},
		{kind: 2, p: rUpdate(l3), by: 2, change: &rChange{by: 2, update: l3, remove: -1}, leaf: 2},
		{kind: 3, p: rRemove(3), by: 1, change: &rChange{remove: 3}, leaf: 3},
		{kind: 1, p: rAdd(k), by: 2, change: &rChange{add: k, remove: -1}, id: k.leaf.sigKey},
	}
	refs := make([][]byte, len(props))
	for i, it := range props {
		refs[i] = x.propose(x.as(it.by), it.p, 1)
	}
	var list []vfItem
	var enc [][]byte
	for i := 1 + vfChoice("len", vfBound("len", 2, 3)); i > 0; i-- {
		j := vfChoice("ref", len(refs))
		enc = append(enc, rByRef(refs[j]))
		list = append(list, props[j])
	}
	c := x.g.commit(enc, vfChanges(x.g.me, list)).withPath().finish(1)
	x.vfTry(c, vfLegal(x.g.me, list), "references stand for the pending proposals")
	vfReach("end")
}

// The rules themselves, for all senders, leaf numbers, keys and PSK
// identities.
func vfH_C16_rules() {
	n := 1 + vfChoice("len", vfBound("len", 3, 4))
	me := leafIndex(vfU32("committer"))
	var props []proposal
	var senders []leafIndex
	var kinds []int
	var leaves []leafIndex
	var ids [][]byte
	for i := 0; i < n; i++ {
		kind := 1 + vfChoice("kind", 7)
		sender := leafIndex(vfU32("sender"))
		p := proposal{proposalType: proposalType(kind)}
		leaf := sender
		var id []byte
		switch kind {
		case 1:
			id = vfBytes("sigkey", 2)
			p.add = &add{keyPackage: KeyPackage{leafNode: leafNode{signatureKey: signaturePublicKey(id)}}}
		case 2:
			p.update = &update{}
		case 3:
			leaf = leafIndex(vfU32("removed"))
			p.remove = &remove{removed: leaf}
		case 4:
			pid := preSharedKeyID{pskType: pskType(1 + vfChoice("psktype", 2)), pskNonce: vfBytes("nonce", 1)}
			if pid.pskType == 1 {
				pid.pskID = vfBytes("pskid", 1)
				id = rCat(rU8(1), pid.pskID, pid.pskNonce)
			} else {
				pid.usage = resumptionPSKUsage(1 + vfU8("usage")&1)
				pid.pskGroupID = GroupID(vfBytes("pskgroup", 1))
				pid.pskEpoch = vfU64("pskepoch")
				id = rCat(rU8(2), rU8(uint8(pid.usage)), pid.pskGroupID, rU64(pid.pskEpoch), pid.pskNonce)
			}
			p.preSharedKey = &preSharedKey{psk: pid}
		case 5:
			p.reInit = &reInit{}
		case 6:
			p.externalInit = &externalInit{}
		case 7:
			p.groupContextExtensions = &groupContextExtensions{}
		}
		props, senders = append(props, p), append(senders, sender)
		kinds, leaves, ids = append(kinds, kind), append(leaves, leaf), append(ids, id)
	}
	bad := false
	for i := 0; i < n; i++ {
		switch kinds[i] {
		case 2, 3:
			bad = vfOr(bad, leaves[i] == me)
		case 5:
			bad = bad || n > 1
		case 6:
			bad = true
		}
		for j := 0; j < i; j++ {
			a, b := kinds[i], kinds[j]
			switch {
			case (a == 2 || a == 3) && (b == 2 || b == 3):
				bad = vfOr(bad, leaves[i] == leaves[j])
			case a == 7 && b == 7:
				bad = true
			case a == b && (a == 1 || a == 4):
				bad = vfOr(bad, vfEqual(ids[i], ids[j]))
			}
		}
	}
	err := verifyProposalList(props, senders, me)
	vfAssert((err != nil) == bad, "refused exactly if a rule is broken")
	vfReach("end")
}

// Which lists need a path.
func vfH_C16_needsPath() {
	n := vfChoice("len", vfBound("len", 4, 6))
	need := n == 0
	var props []proposal
	for i := 0; i < n; i++ {
		kind := 1 + vfU16("kind")&7
		vfAssume(kind <= 7)
		need = vfOr(need, vfOr(vfOr(kind == 2, kind == 3), vfOr(kind == 6, kind == 7)))
		props = append(props, proposal{proposalType: proposalType(kind)})
	}
	vfAssert(proposalListNeedsPath(props) == need, "a path is needed exactly by the rule")
	vfReach("end")
}

// Resolution of references among pending proposals with any references.
func vfH_C16_resolve() {
	np := vfChoice("pending", vfBound("pending", 4, 5))
	var pending []pendingProposal
	for i := 0; i < np; i++ {
		p := &proposal{proposalType: proposalTypeRemove, remove: &remove{removed: leafIndex(vfU32("what"))}}
		pending = append(pending, pendingProposal{ref: proposalRef(vfBytes("ref", 2)), proposal: p, sender: leafIndex(vfU32("sender"))})
		for j := 0; j < i; j++ {
			vfAssume(!vfEqual(pending[i].ref, pending[j].ref))
		}
	}
	n := vfChoice("len", vfBound("len", 3, 4))
	committer := leafIndex(vfU32("committer"))
	var list []proposalOrRef
	var what []uint32
	var who []leafIndex
	known := true
	for i := 0; i < n; i++ {
		if vfChoice("byref", 2) == 0 {
			r := leafIndex(vfU32("what"))
			list = append(list, proposalOrRef{typ: proposalOrRefTypeProposal, proposal: &proposal{proposalType: proposalTypeRemove, remove: &remove{removed: r}}})
			what, who = append(what, uint32(r)), append(who, committer)
			continue
		}
		ref := vfBytes("want", vfChoice("short", 2)+1)
		list = append(list, proposalOrRef{typ: proposalOrRefTypeReference, reference: proposalRef(ref)})
		found := false
		for _, pp := range pending {
			if vfEqual(pp.ref, ref) {
				found = true
				what, who = append(what, uint32(pp.proposal.remove.removed)), append(who, pp.sender)
				break
			}
		}
		known = known && found
	}
	props, senders, err := resolveProposals(list, committer, pending)
	vfAssert((err == nil) == known, "refused exactly if a reference is unknown")
	if err == nil {
		vfAssert(len(props) == n && len(senders) == n, "one proposal per entry")
		for i := range props {
			vfAssert(uint32(props[i].remove.removed) == what[i] && senders[i] == who[i], "proposals with their senders, in order")
		}
	}
	vfReach("end")
}

// Many pending proposals, some of which are committed in another order.
func vfH_C16_many() {
	vfSteps(100000000)
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	n := []int{5, 9, 33, 65, 129}[vfChoice("n", vfBound("many", 4, 5))]
	x := vfShared(cs, 2, 1)
	by := x.as(x.refs()[1])
	ks := make([]*rKP, n)
	refs := make([][]byte, n)
	for i := range ks {
		ks[i] = rKeyPackage(x.g.s, "new")
		refs[i] = x.propose(by, rAdd(ks[i]), uint16(1+i%2))
	}
	var list [][]byte
	var ch []rChange
	use := func(i int) {
		list = append(list, rByRef(refs[i]))
		ch = append(ch, rChange{add: ks[i], remove: -1})
	}
	switch vfChoice("which", 4) {
	case 0: // any one
		use(vfSome("one", n))
	case 1: // all, backwards
		for i := n - 1; i >= 0; i-- {
			use(i)
		}
	case 2: // every other one
		for i := 0; i < n; i += 2 {
			use(i)
		}
	case 3: // first and last
		use(0)
		use(n - 1)
	}
	x.deliver(x.g.commit(list, ch).finish(1))
	x.agree()
	vfReach("end")
}
