package mls

// Histories of many operations, in one of many fixed orders.

// vfLong starts such a history.
func vfLong(salt int) *vfMixed {
	vfSteps(1 << 30)
	n := vfChoice("script", vfBound("scripts", 12, 40))
	x := vfShared(vfSuites[n%len(vfSuites)], 1+n%3, 2+n%2)
	x.rnd = uint32(100*salt+n)*0x9e3779b1 | 1
	return x
}

// long performs many operations in a fixed order.
func (x *vfMixed) long(n int, after func()) {
	for ; n > 0; n-- {
		refs, libs := x.refs(), x.libs()
		op := x.pick("op", vfOps)
		switch {
		case op == 4 && len(libs) < 3, (op == 5 || op == 7 || op == 8) && len(refs) < 3, op <= 2 && len(refs)+len(libs) > 10:
			op = 3
		case op == 6 && len(refs)+len(libs) > 10:
			op = 4
		}
		if i := refs[x.pick("speaker", len(refs))]; op != 3 {
			x.speak(i)
		}
		if op == 5 || op == 7 || op == 8 {
			for x.g.me == refs[x.peek(len(refs))] {
				x.pick("again", 1)
			}
		}
		x.step(op)
		x.agree()
		after()
	}
}

// peek is what pick is going to answer.
func (x *vfMixed) peek(n int) int {
	r := x.rnd
	i := x.pick("", n)
	x.rnd = r
	return i
}

// bad gives a commit with a path to everybody, which fails at the very end.
func (x *vfMixed) bad() {
	refs := x.refs()
	x.speak(refs[x.pick("bad", len(refs))])
	c := x.g.commit(nil, nil).withPath().finish(uint16(1 + x.pick("wire", 2)))
	c.frame.tag = vfFlip(c.frame.tag)
	for _, m := range x.members() {
		vfAssert(m.recv(c.message()) != nil, "a commit with a wrong tag is refused")
	}
}

func vfH_C07_long() {
	x := vfLong(7)
	x.long(vfBound("long", 12, 24), func() {
		x.bad()
		for _, m := range x.members() {
			if x.pick("unused", 3) == 0 {
				_, _, err := m.group.CreateWelcome([]KeyPackage{vfNewMember(x.g.s.id, "unused").kpp.Public})
				vfAssert(err == nil, "welcome creation succeeds")
			}
		}
		x.agree()
	})
	vfReach("end")
}

func vfH_C08_long() {
	x := vfLong(8)
	x.long(vfBound("long", 24, 48), func() {})
	vfReach("end")
}

func vfH_C13_long() {
	x := vfLong(13)
	var old [][]byte
	all := x.members()
	x.long(vfBound("long", 12, 24), func() {
		text := vfBytes("text", 2)
		msg := x.g.application(text)
		for _, b := range old {
			for _, m := range x.members() {
				_, err := m.group.UnmarshalAndProcessMessage(b)
				vfAssert(err != nil, "messages of other epochs are refused")
			}
		}
		now := map[*vfMember]bool{}
		for _, m := range x.members() {
			now[m] = true
		}
		for _, m := range all {
			if !now[m] {
				_, err := m.group.UnmarshalAndProcessMessage(msg)
				vfAssert(err != nil, "former members cannot read messages")
			}
		}
		all = x.members()
		for _, m := range x.members() {
			out, err := m.group.CreateApplicationMessage(text)
			vfAssert(err == nil, "members create messages")
			for _, o := range x.members() {
				if o != m {
					got, err := o.group.UnmarshalAndProcessMessage(out)
					vfAssert(err == nil && vfEqual(got, text), "members read messages of members")
				}
			}
		}
		old = append(old, msg)
		if len(old) > 3 {
			old = old[1:]
		}
	})
	vfReach("end")
}

func vfH_C14_long() {
	x := vfLong(14)
	var old [][]byte
	x.long(vfBound("long", 12, 24), func() {
		for _, b := range old {
			for _, m := range x.members() {
				vfAssert(m.recv(b) != nil, "proposals of other epochs are refused")
			}
		}
		refs := x.refs()
		by := x.as(refs[x.pick("proposer", len(refs))])
		p := rRemove(uint32(by.me))
		f := by.frame(2, p, 1)
		by.sign(f)
		msg := by.public(f)
		for _, m := range x.members() {
			vfAssert(m.recv(msg) == nil, "members accept an honest proposal")
		}
		old = append(old, msg)
		if len(old) > 3 {
			old = old[1:]
		}
	})
	vfReach("end")
}

func vfH_C15_long() {
	x := vfLong(15)
	x.long(vfBound("long", 24, 48), func() {})
	vfReach("end")
}

// Somebody joins after every operation and is gone after the next.
func vfH_C18_long() {
	x := vfLong(18)
	last := -1
	x.long(vfBound("long", 12, 24), func() {
		if last >= 0 && x.lib[last] != nil && len(x.libs()) > 1 && x.pick("leave", 4) > 0 {
			x.remove(last)
		}
		n := x.g.tree
		x.addLib(1, x.pick("path", 2) == 1, 1)
		last = -1
		for _, i := range x.libs() {
			if i >= n.leaves() || n.leaf(i) == nil {
				last = i
			}
		}
		x.agree()
	})
	vfReach("end")
}

// Library members invite after every operation.
func vfH_C19_long() {
	x := vfLong(19)
	x.long(vfBound("long", 12, 24), func() {
		libs := x.libs()
		for len(libs) > 3 {
			x.remove(libs[0])
			libs = libs[1:]
		}
		x.invite(x.lib[libs[x.pick("inviter", len(libs))]], 1+x.pick("n", 2))
		x.agree()
	})
	vfReach("end")
}

// Several paths after every operation.
func vfH_C21_long() {
	x := vfLong(21)
	x.long(vfBound("long", 12, 24), func() {
		for i := 0; i < 2; i++ {
			refs := x.refs()
			x.speak(refs[x.pick("committer", len(refs))])
			x.refresh()
			x.agree()
		}
	})
	vfReach("end")
}

func vfH_C24_long() {
	vfReuse()
	x := vfLong(24)
	x.long(vfBound("long", 16, 32), func() {})
	vfReach("end")
}
