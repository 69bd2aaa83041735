package mls

// vfCanonical asserts that v only accepts raw if it encodes back to raw.
func vfCanonical(raw []byte, v vfCodec) {
	in := append([]byte(nil), raw...)
	if unmarshal(in, v) != nil {
		vfReach("rejected")
		return
	}
	out, err := marshal(v)
	vfAssert(err == nil, "accepted message encodes")
	vfAssert(vfEqual(out, raw), "only the canonical encoding is accepted")
	vfReach("accepted")
}

// vfStrict asserts that no proper prefix of the well-formed message w and no
// extension of it is accepted, and that it is rejected if one of its
// enumerators is out of range.
func vfStrict(w *vfW, fresh func() vfCodec) {
	err := unmarshal(w.b, fresh())
	if *w.bad {
		vfAssert(err != nil, "unknown enumerator is rejected")
		vfReach("bad enumerator")
		return
	}
	vfAssert(err == nil, "well-formed message is accepted")
	for n := 0; n < len(w.b); n++ {
		vfAssert(unmarshal(w.b[:n:n], fresh()) != nil, "truncated message is rejected")
	}
	for n := 1; n <= 2; n++ {
		long := append(append([]byte(nil), w.b...), vfBytes("surplus", n)...)
		vfAssert(unmarshal(long, fresh()) != nil, "message with surplus bytes is rejected")
	}
	vfReach("strict")
}

func vfC04Budget() int { return vfBound("deviations from the default shape", 1, 2) }

func vfC04Strict(variants int, f func(w *vfW), fresh func() vfCodec) {
	w := vfWire(vfC04Budget(), true)
	w.other = vfChoice("variants", variants)
	f(w)
	vfStrict(w, fresh)
}

func vfC04Message(wf, ct, prop int) {
	n := 2
	if wf == 1 {
		n = 4
	}
	vfC04Strict(n, func(w *vfW) { w.message(wf, ct, prop) }, func() vfCodec { return new(mlsMessage) })
}

func vfH_C04_publicApplication()  { vfC04Message(1, 1, 3) }
func vfH_C04_publicAdd()          { vfC04Message(1, 2, 1) }
func vfH_C04_publicUpdate()       { vfC04Message(1, 2, 2) }
func vfH_C04_publicRemove()       { vfC04Message(1, 2, 3) }
func vfH_C04_publicPSK()          { vfC04Message(1, 2, 4) }
func vfH_C04_publicReInit()       { vfC04Message(1, 2, 5) }
func vfH_C04_publicExternalInit() { vfC04Message(1, 2, 6) }
func vfH_C04_publicExtensions()   { vfC04Message(1, 2, 7) }
func vfH_C04_publicCommit()       { vfC04Message(1, 3, 3) }
func vfH_C04_privateMessage()     { vfC04Message(2, 0, 0) }
func vfH_C04_welcome()            { vfC04Message(3, 0, 0) }
func vfH_C04_groupInfo()          { vfC04Message(4, 0, 0) }
func vfH_C04_keyPackage()         { vfC04Message(5, 0, 0) }

func vfH_C04_ratchetTree() {
	vfC04Strict(2, func(w *vfW) { w.ratchetTree() }, func() vfCodec { return new(ratchetTree) })
}

func vfH_C04_groupSecrets() {
	vfC04Strict(2, func(w *vfW) { w.groupSecrets() }, func() vfCodec { return new(groupSecrets) })
}

func vfH_C04_commit() {
	vfC04Strict(2, func(w *vfW) { w.commit() }, func() vfCodec { return new(commit) })
}

func vfH_C04_senderData() {
	vfC04Strict(1, func(w *vfW) { w.num("sender data", 12) }, func() vfCodec { return new(senderData) })
}

func vfH_C04_authenticatedContent() {
	vfC04Strict(2, func(w *vfW) {
		w.b = append(w.b, 0)
		w.enum("wire format", 1, 5, 1)
		_, ct := w.framedContent(3, 3)
		w.authData(ct)
	}, func() vfCodec { return new(authenticatedContent) })
}

// A tree ending in a blank node or without any node is not canonical.
func vfH_C04_treeTrailingBlank() {
	w := vfWire(0, false)
	c := w.sub()
	n := vfChoice("nodes", 4)
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			c.b = append(c.b, 1, 1)
			c.leafNode(1 + vfChoice("source", 3))
		} else {
			c.b = append(c.b, 0)
		}
	}
	blanks := vfChoice("blanks", 4)
	vfAssume(n == 0 || blanks > 0 || n%2 == 0)
	for i := 0; i < blanks; i++ {
		c.b = append(c.b, 0)
	}
	w.varint(len(c.b))
	w.b = append(w.b, c.b...)
	vfAssert(unmarshal(w.b, new(ratchetTree)) != nil, "tree with trailing blank nodes is rejected")
	vfReach("end")
}

// Exported decoders accept their own wire format only.
func vfH_C04_wireFormats() {
	wf := 1 + vfChoice("wire format", 5)
	w := vfWire(0, false)
	w.message(wf, 2, 1)
	kp, err := UnmarshalKeyPackage(w.b)
	vfAssert((err == nil) == (wf == 5), "key package decoder accepts key packages only")
	vfAssert((kp != nil) == (err == nil), "key package or error")
	wel, err := UnmarshalWelcome(w.b)
	vfAssert((err == nil) == (wf == 3), "welcome decoder accepts welcomes only")
	vfAssert((wel != nil) == (err == nil), "welcome or error")
	vfReach("end")
}

func vfH_C04_exportedStrict() {
	wf := []int{3, 5}[vfChoice("wire format", 2)]
	w := vfWire(vfC04Budget(), true)
	w.other = vfChoice("variants", 2)
	w.message(wf, 0, 0)
	dec := func(raw []byte) error {
		var err error
		if wf == 3 {
			_, err = UnmarshalWelcome(raw)
		} else {
			_, err = UnmarshalKeyPackage(raw)
		}
		return err
	}
	err := dec(w.b)
	if *w.bad {
		vfAssert(err != nil, "unknown enumerator is rejected")
		vfReach("bad enumerator")
		return
	}
	vfAssert(err == nil, "well-formed message is accepted")
	for n := 0; n < len(w.b); n++ {
		vfAssert(dec(w.b[:n:n]) != nil, "truncated message is rejected")
	}
	long := append(append([]byte(nil), w.b...), vfBytes("surplus", 1)...)
	vfAssert(dec(long) != nil, "message with surplus bytes is rejected")
	vfReach("strict")
}

// One byte of a well-formed message with fixed contents is replaced by an
// arbitrary one.
func vfC04Corrupt(f func(w *vfW), fresh func() vfCodec) {
	w := vfWire(0, false)
	w.other = vfChoice("variants", 2)
	w.fill = vfChoice("contents", vfBound("filler bytes", 3, 6))
	f(w)
	p := vfChoice("position", len(w.b))
	w.b[p] = vfU8("byte")
	vfCanonical(w.b, fresh())
}

func vfC04CorruptMessage(wf, ct, prop int) {
	vfC04Corrupt(func(w *vfW) { w.message(wf, ct, prop) }, func() vfCodec { return new(mlsMessage) })
}

func vfH_C04_corruptAdd()         { vfC04CorruptMessage(1, 2, 1) }
func vfH_C04_corruptUpdate()      { vfC04CorruptMessage(1, 2, 2) }
func vfH_C04_corruptRemove()      { vfC04CorruptMessage(1, 2, 3) }
func vfH_C04_corruptPSK()         { vfC04CorruptMessage(1, 2, 4) }
func vfH_C04_corruptReInit()      { vfC04CorruptMessage(1, 2, 5) }
func vfH_C04_corruptExternal()    { vfC04CorruptMessage(1, 2, 6) }
func vfH_C04_corruptExtensions()  { vfC04CorruptMessage(1, 2, 7) }
func vfH_C04_corruptApplication() { vfC04CorruptMessage(1, 1, 3) }
func vfH_C04_corruptCommit()      { vfC04CorruptMessage(1, 3, 3) }
func vfH_C04_corruptPrivate()     { vfC04CorruptMessage(2, 0, 0) }
func vfH_C04_corruptWelcome()     { vfC04CorruptMessage(3, 0, 0) }
func vfH_C04_corruptGroupInfo()   { vfC04CorruptMessage(4, 0, 0) }
func vfH_C04_corruptKeyPackage()  { vfC04CorruptMessage(5, 0, 0) }

func vfH_C04_corruptTree() {
	vfC04Corrupt(func(w *vfW) { w.ratchetTree() }, func() vfCodec { return new(ratchetTree) })
}

func vfH_C04_corruptSecrets() {
	vfC04Corrupt(func(w *vfW) { w.groupSecrets() }, func() vfCodec { return new(groupSecrets) })
}

// All byte strings up to a length.
func vfC04Any(n int, fresh func() vfCodec) {
	l := vfChoice("len", n+1)
	vfCanonical(vfBytes("in", l), fresh())
}

func vfH_C04_anyCredential() {
	vfC04Any(vfBound("credential bytes", 9, 14), func() vfCodec { return new(Credential) })
}
func vfH_C04_anySender() { vfC04Any(7, func() vfCodec { return new(sender) }) }
func vfH_C04_anyParentNode() {
	vfC04Any(vfBound("parent node bytes", 10, 14), func() vfCodec { return new(parentNode) })
}
func vfH_C04_anyPSKID() {
	vfC04Any(vfBound("PSK id bytes", 13, 16), func() vfCodec { return new(preSharedKeyID) })
}
func vfH_C04_anyGroupSecrets() {
	vfC04Any(vfBound("group secrets bytes", 9, 12), func() vfCodec { return new(groupSecrets) })
}
func vfH_C04_anyWelcome() {
	vfC04Any(vfBound("welcome bytes", 10, 13), func() vfCodec { return new(Welcome) })
}
func vfH_C04_anyCommit() {
	vfC04Any(vfBound("commit bytes", 10, 12), func() vfCodec { return new(commit) })
}
func vfH_C04_anyProposal() {
	vfC04Any(vfBound("proposal bytes", 9, 12), func() vfCodec { return new(proposal) })
}
func vfH_C04_anyTree() {
	vfC04Any(vfBound("tree bytes", 9, 12), func() vfCodec { return new(ratchetTree) })
}
func vfH_C04_anyMessage() {
	vfC04Any(vfBound("message bytes", 12, 18), func() vfCodec { return new(mlsMessage) })
}
func vfH_C04_anyPrivateMessage() {
	l := 9 + vfChoice("len", vfBound("private message bytes", 9, 12))
	vfCanonical(vfBytes("in", l), new(privateMessage))
}
func vfH_C04_anyGroupContext() {
	l := 12 + vfChoice("len", vfBound("group context bytes", 9, 12))
	vfCanonical(vfBytes("in", l), new(groupContext))
}
func vfH_C04_anyLeafNode() {
	l := 12 + vfChoice("len", vfBound("leaf node bytes above 11", 3, 5))
	vfCanonical(vfBytes("in", l), new(leafNode))
}
