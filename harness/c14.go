package mls

// vfProposal is a proposal of the given kind by g, and its effect.
func vfProposal(g *rGroup, kind int) ([]byte, rChange) {
	switch kind {
	case 0:
		k := rKeyPackage(g.s, "new")
		return rAdd(k), rChange{by: g.me, add: k, remove: -1}
	case 1:
		l, _ := vfUpdateLeaf(g)
		return rUpdate(l), rChange{by: g.me, update: l, remove: -1}
	default:
		return rRemove(2), rChange{by: g.me, remove: 2}
	}
}

// Honest proposals of any member are accepted and can be committed by
// reference, in public and private form.
func vfH_C14_honest() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1+vfChoice("lib", 2), 2)
	by := x.as(vfChoice("by", 2))
	wire := uint16(1 + vfChoice("wire", 2))
	p, ch := vfProposal(by, vfChoice("kind", 3))
	vfAssume(ch.update == nil || by.me != 0) // the committer cannot update itself
	f := by.frame(2, p, wire)
	f.aad = vfBytes("aad", vfChoice("aad", 2))
	by.sign(f)
	msg := by.public(f)
	if wire == 2 {
		msg = by.private(f, by.sender(0))
	}
	for _, m := range x.members() {
		vfAssert(m.recv(msg) == nil, "an honest proposal is accepted")
	}
	x.agree()
	c := x.g.commit([][]byte{rByRef(by.proposalRef(f))}, []rChange{ch})
	x.deliver(c.withPath().finish(wire))
	x.agree()
	vfReach("end")
}

const vfPublicForgeries = 27

// vfForge builds a public message whose authentication deviates; how 0 is
// honest.  by is the sender, other another member; done is called when the
// signature is there.
func vfForge(by, other *rGroup, f *rFrame, how int, done func()) []byte {
	signed := *f
	signer, ctx, label := by.sigPriv, by.context(), "FramedContentTBS"
	macKey, macCtx := by.s.derive(by.epochSecret, "membership"), by.context()
	switch how {
	case 1:
		signer = other.sigPriv
	case 2:
		f.sender = uint32(other.me)
		signed = *f
	case 3:
		signed.body = vfFlip(f.body)
	case 4:
		signed.aad = vfFlip(rCat(f.aad, rU8(0)))
	case 5:
		signed.epoch = vfU64("epoch")
		vfAssume(signed.epoch != f.epoch)
	case 6:
		signed.id = vfFlip(f.id)
	case 7:
		signed.sender = vfU32("leaf")
		vfAssume(signed.sender != f.sender)
	case 8:
		ctx = vfFlip(ctx)
	case 9:
		signed.wire = 2
	case 10:
		label = "FramedContentTBM"
	case 11: // another group or epoch, consistently
		f.epoch = vfU64("epoch")
		vfAssume(f.epoch != by.epoch)
		signed = *f
	case 12:
		f.id = vfFlip(f.id)
		signed = *f
	case 13: // leaf that does not exist
		f.sender = vfU32("leaf")
		vfAssume(f.sender >= uint32(by.tree.leaves()))
		signed = *f
	case 14: // other kinds of senders
		f.stype = 2
		f.sender = 0
		signed = *f
	case 15:
		f.stype = 3
		signed = *f
	case 16:
		f.stype = 4
		signed = *f
	}
	f.sig = by.s.sign(signer, label, signed.tbs(ctx))
	if how == 17 {
		f.sig = vfFlip(f.sig)
	}
	if how == 18 {
		f.sig = nil
	}
	done()
	mac := *f
	switch how {
	case 19:
		macKey = by.s.derive(by.epochSecret, "confirm")
	case 20:
		mac.body = vfFlip(f.body)
	case 21:
		mac.sig = vfFlip(f.sig)
	case 22:
		macCtx = vfFlip(macCtx)
	case 23:
		mac.wire = 2
	}
	tag := by.s.mac(macKey, mac.tbs(macCtx), mac.auth())
	switch how {
	case 24:
		tag = vfFlip(tag)
	case 25:
		tag = nil
	case 26:
		tag = tag[:vfChoice("cut", len(tag))]
	}
	return rPublic(f, tag)
}

func vfH_C14_proposal() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	by, other := x.as(1), x.as(0)
	f := by.frame(2, rRemove(2), 1)
	how := vfChoice("how", vfPublicForgeries)
	msg := vfForge(by, other, f, how, func() {})
	for _, m := range x.members() {
		vfAssert((m.recv(msg) == nil) == (how == 0), "accepted exactly if authentic")
	}
	x.agree()
	vfReach("end")
}

func vfH_C14_commit() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 1, 4))]
	x := vfShared(cs, 1, 2)
	by, other := x.g, x.as(1)
	var c *rCommit
	if vfChoice("kind", 2) == 0 {
		k := rKeyPackage(x.g.s, "new")
		c = by.commit([][]byte{rByValue(rAdd(k))}, []rChange{{add: k, remove: -1}})
	} else {
		c = by.commit(nil, nil).withPath()
	}
	c.finish(1)
	how := vfChoice("how", vfPublicForgeries)
	msg := vfForge(by, other, c.frame, how, func() { c.schedule() })
	for _, m := range x.members() {
		vfAssert((m.recv(msg) == nil) == (how == 0), "accepted exactly if authentic")
	}
	if how == 0 {
		x.g = c.next
	}
	x.agree()
	vfReach("end")
}

// The confirmation tag is part of what is authenticated.
func vfH_C14_confirmation() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 2)
	c := x.g.commit(nil, nil).withPath().finish(1)
	tag := c.frame.tag
	how := vfChoice("how", 5)
	switch how {
	case 1: // membership tag made for the altered confirmation tag
		c.frame.tag = vfFlip(tag)
	case 2:
		c.frame.tag = nil
	case 3:
		c.frame.tag = tag[:len(tag)-1]
	}
	msg := x.g.public(c.frame)
	if how == 4 { // membership tag made for the original confirmation tag
		m := x.g.memberTag(c.frame)
		c.frame.tag = vfFlip(tag)
		msg = rPublic(c.frame, m)
	}
	for _, m := range x.members() {
		vfAssert((m.recv(msg) == nil) == (how == 0), "accepted exactly if the confirmation tag fits")
	}
	if how == 0 {
		x.g = c.next
	}
	x.agree()
	vfReach("end")
}

// Application data must not be sent in the clear.
func vfH_C14_application() {
	x := vfShared(vfSuites[vfChoice("suite", len(vfSuites))], 1, 1)
	f := x.g.frame(1, vfBytes("data", vfChoice("len", 3)), 1)
	x.g.sign(f)
	for _, m := range x.members() {
		vfRejects(m, x.g.public(f), "application data in a public message is rejected")
	}
	x.agree()
	vfReach("end")
}

// Any altered byte of a public proposal other than a length or the kind of
// message.
func vfH_C14_altered() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfShared(cs, 1, 2)
	g := x.g
	f := g.frame(2, rRemove(1), 1)
	f.aad = vfBytes("aad", 1)
	g.sign(f)
	msg := g.public(f)
	sig := 4 + len(f.content())
	pos := vfChoice("pos", len(msg))
	d := vfU8("delta")
	vfAssume(d != 0)
	msg[pos] ^= d
	vfAssume(pos != 3 || msg[3] == 0 || msg[3] > 5)
	ct := sig - len(f.body) - 1
	vfAssume(pos != ct || msg[ct] == 0 || msg[ct] > 3)        // kind of content
	vfAssume(pos != ct+2 || msg[ct+2] == 0 || msg[ct+2] > 7)  // kind of proposal
	vfAssume(pos != 4 && pos != ct-2)                         // lengths
	vfAssume(pos != sig && (len(f.sig) < 64 || pos != sig+1)) // length of the signature
	for _, m := range x.members() {
		vfRejects(m, msg, "an altered message is rejected")
	}
	x.agree()
	vfReach("end")
}

// A message that was accepted once is not accepted in the next epoch, in
// another group with the same name, or in the other wire format.
func vfH_C14_reuse() {
	cs := vfSuites[vfChoice("suite", len(vfSuites))]
	x := vfShared(cs, 1, 2)
	by := x.as(1)
	f := by.frame(2, rRemove(2), 1)
	by.sign(f)
	msg := by.public(f)
	switch vfChoice("how", 4) {
	case 0:
		x.refresh()
	case 1:
		x = vfShared(cs, 1, 2)
	case 2:
		msg = by.private(f, by.sender(0))
	case 3:
		f.wire = 2
		by.sign(f)
		f.wire = 1
		msg = by.public(f)
	}
	for _, m := range x.members() {
		vfRejects(m, msg, "a reused message is rejected")
	}
	x.agree()
	vfReach("end")
}

// Groups are told apart by every byte of their names.
func vfH_C14_groupID() {
	a := vfBytes("a", []int{0, 1, 3, 32}[vfChoice("alen", 4)])
	b := vfBytes("b", []int{0, 1, 3, 32}[vfChoice("blen", 4)])
	vfAssert(GroupID(a).Equal(GroupID(b)) == vfEqual(a, b), "names are equal exactly if their bytes are")
	vfReach("end")
}

// Groups with any epoch number and long names.
func vfH_C14_aged() {
	cs := vfSuites[vfChoice("suite", vfBound("suites", 2, 4))]
	x := vfAged(cs)
	f := x.g.frame(2, rRemove(2), 1)
	how := vfChoice("how", 3)
	switch how {
	case 1:
		f.epoch = vfU64("other")
		vfAssume(f.epoch != x.g.epoch)
	case 2:
		f.id = vfBytes("id", []int{0, 1, 16, 64, 300}[vfChoice("otherlen", 5)])
		vfAssume(!vfEqual(f.id, x.g.id))
	}
	x.g.sign(f)
	msg := x.g.public(f)
	for _, m := range x.members() {
		vfAssert((m.recv(msg) == nil) == (how == 0), "accepted exactly if it is for this group and epoch")
	}
	if how == 0 {
		ref := x.g.proposalRef(f)
		delete(x.lib, 2)
		x.deliver(x.g.commit([][]byte{rByRef(ref)}, []rChange{{remove: 2}}).withPath().finish(1))
	}
	x.agree()
	vfReach("end")
}
