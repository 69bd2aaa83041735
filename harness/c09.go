package mls

func vfC09Tree(t rTree) {
	l := vfLibTree(t)
	var all func(lo, hi int)
	all = func(lo, hi int) {
		want := t.resolve(lo, hi)
		got := l.resolve(nodeIndex(rMid(lo, hi)))
		vfAssert(len(got) == len(want), "resolutions have the right length")
		for i := range want {
			vfAssert(int(got[i]) == want[i], "resolutions have the right nodes in order")
		}
		if hi-lo > 1 {
			m := (lo + hi) / 2
			all(lo, m)
			all(m, hi)
		}
	}
	all(0, t.leaves())
	vfReach("end")
}

func vfC09Path(t rTree) {
	l := vfLibTree(t)
	for i := 0; i < t.leaves(); i++ {
		want := t.filtered(i)
		got := l.filteredDirectPath(leafIndex(i).nodeIndex())
		vfAssert(len(got) == len(want), "filtered direct paths have the right length")
		for j := range want {
			vfAssert(int(got[j]) == want[j].node(), "filtered direct paths have the right nodes in order")
		}
	}
	vfReach("end")
}

func vfH_C09_small()     { vfC09Tree(vfSmall()) }
func vfH_C09_large()     { vfC09Tree(vfLarge()) }
func vfH_C09_smallPath() { vfC09Path(vfSmall()) }
func vfH_C09_largePath() { vfC09Path(vfLarge()) }

// As seen by members: paths through trees with holes, blank parents and
// unmerged leaves have exactly the nodes and ciphertexts the definitions say,
// otherwise the peer's commit is not accepted or the secret not found.
func vfH_C09_members() {
	n := 3 + vfChoice("n", vfBound("n", 3, 6))
	x := vfLibAt(vfSuites[0], n, vfChoice("at", n))
	me := x.libs()[0]
	step := func(kind int) {
		switch kind {
		case 0:
			x.addRef(1)
		case 1:
			i := vfSome("removed", n)
			vfAssume(x.keys[i] != nil && i != x.g.me)
			x.remove(i)
		case 2:
			i := vfSome("committer", n)
			vfAssume(x.keys[i] != nil)
			x.speak(i)
			x.refresh()
			x.agree()
		}
	}
	for i := vfBound("steps", 2, 3); i > 0; i-- {
		step(vfChoice("step", 3))
	}
	for i := 0; i < x.g.tree.leaves(); i++ {
		if x.keys[i] != nil && i != me {
			x.speak(i)
			break
		}
	}
	x.refresh()
	x.agree()
	vfReach("end")
}
