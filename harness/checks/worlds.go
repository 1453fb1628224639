// Package checks holds the monitors, one file per property.
package checks

import (
	"fmt"
	"math/rand"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// scale picks a case count by tier.
func scale(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// casesOf makes n cases of a kind, cycling through the suites.
func casesOf(kind string, n int, seed int64, p map[string]int64) []run.Case {
	var out []run.Case
	for i := 0; i < n; i++ {
		m := map[string]int64{"i": int64(i), "suite": int64(refmls.Supported[i%len(refmls.Supported)])}
		for k, v := range p {
			m[k] = v
		}
		out = append(out, run.Case{Kind: kind, Seed: seed, N: m})
	}
	return out
}

func randGID(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		return refmls.Bytes(r, 64)
	case 2:
		return refmls.Bytes(r, 63)
	case 3:
		return refmls.Bytes(r, 500)
	case 4:
		return refmls.Bytes(r, 16384+r.Intn(2))
	}
	return refmls.Bytes(r, 1+r.Intn(40))
}

func randEpoch(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return 1<<32 - 3
	case 1:
		return 1<<63 - 2
	case 2:
		return 255
	case 3:
		return 1<<16 - 2
	case 4:
		return uint64(r.Int63())
	}
	return 0
}

// newWorld makes a random world for a case.
func newWorld(x *run.Ctx, mod func(*sim.Cfg)) *sim.World {
	r := x.Rng
	cfg := sim.Cfg{Suite: uint16(x.P("suite")), GID: randGID(r), LibFound: r.Intn(2) == 0}
	if x.Case.N["suite"] == 0 {
		cfg.Suite = 1
	}
	if !cfg.LibFound {
		cfg.Epoch0 = randEpoch(r)
		cfg.Variety = r.Intn(2) == 0
		cfg.X509 = r.Intn(4) == 0
		if r.Intn(3) == 0 {
			cfg.GCE = true
			cfg.Wide = r.Intn(2) == 0
		}
	} else {
		cfg.Variety = r.Intn(3) == 0
		cfg.GCE = r.Intn(4) == 0
	}
	if mod != nil {
		mod(&cfg)
	}
	if cfg.GCE && !cfg.LibFound && cfg.Exts == nil {
		cfg.Exts = sim.RandExts(r, &cfg)
	}
	return sim.New(x, cfg)
}

// grow adds members until the group has n, alternating library invitations
// and reference commits.
func grow(w *sim.World, n int) {
	for len(w.Members) < n {
		k := n - len(w.Members)
		if k > 6 {
			k = 1 + w.R.Intn(6)
		}
		growBy(w, k)
	}
}

func growBy(w *sim.World, k int) {
	cl, ls := w.NewClients(k)
	if len(w.Libs()) == 0 {
		// make sure there is a library member
		ls[0] = true
		if cl[0].KPP == nil {
			cl[0] = w.NewClient(true)
		}
	}
	if libs := w.Libs(); len(libs) > 0 && w.R.Intn(2) == 0 {
		w.Invite(libs[w.R.Intn(len(libs))], cl, ls)
		return
	}
	refs := w.Refs()
	w.Commit(&sim.Spec{By: refs[w.R.Intn(len(refs))], Adds: cl, AddLib: ls, Path: w.R.Intn(3) > 0, Seal: w.RandSeal(), ByRef: w.R.Intn(3) == 0})
}

// addKinds makes sure there are at least l library and f reference members.
func addKinds(w *sim.World, l, f int) {
	var cl []*sim.Client
	var ls []bool
	for i := len(w.Libs()); i < l; i++ {
		cl = append(cl, w.NewClient(true))
		ls = append(ls, true)
	}
	for i := len(w.Refs()); i < f; i++ {
		cl = append(cl, w.NewClient(false))
		ls = append(ls, false)
	}
	if len(cl) == 0 {
		return
	}
	w.Commit(&sim.Spec{By: w.Witness(), Adds: cl, AddLib: ls, Path: true, Seal: w.RandSeal()})
}

func sizeClass(n int) string {
	switch {
	case n <= 4:
		return fmt.Sprint(n)
	case n <= 8:
		return "5-8"
	case n <= 16:
		return "9-16"
	case n <= 64:
		return "17-64"
	}
	return ">64"
}

// sparse makes a tree with whole subtrees of blank leaves, lets library
// clients join it with path secrets and lets members from all over the tree
// commit.
func sparse(w *sim.World, seen func(kind string)) {
	r := w.R
	size := []int{5, 9, 12, 16, 17, 24, 32, 33}[r.Intn(8)]
	add := func(by *sim.Member, n, lib int, path bool) {
		var cl []*sim.Client
		var ls []bool
		for i := 0; i < n; i++ {
			cl = append(cl, w.NewClient(i < lib))
			ls = append(ls, i < lib)
		}
		r.Shuffle(n, func(i, j int) { cl[i], cl[j], ls[i], ls[j] = cl[j], cl[i], ls[j], ls[i] })
		w.Commit(&sim.Spec{By: by, Adds: cl, AddLib: ls, Path: path, Seal: w.RandSeal()})
	}
	some := func() *sim.Member { refs := w.Refs(); return refs[r.Intn(len(refs))] }
	path := func() { w.Commit(&sim.Spec{By: some(), Path: true, Seal: w.RandSeal()}) }
	add(some(), size-len(w.Members), 1+r.Intn(2), true)
	for i := r.Intn(4); i > 0; i-- {
		path()
	}
	for round := 0; round < 3; round++ {
		// a run of leaves leaves
		t := w.Witness().Ref.Tree
		n := int(t.NumLeaves())
		from, k := r.Intn(n), 1+r.Intn(1+n/2)
		sp := &sim.Spec{By: some(), Path: true, Seal: w.RandSeal()}
		for _, m := range w.Members {
			li := int(w.LeafOf(m))
			if li >= from && li < from+k && m != sp.By && !(m.IsLib() && countLibs(w, sp) <= 1) && len(w.Members)-len(sp.Removes) > 3 {
				sp.Removes = append(sp.Removes, m)
			}
		}
		if len(sp.Removes) > 0 {
			w.Commit(sp)
			w.Agree()
			seen("run")
		}
		for i := 0; i < 2; i++ {
			add(some(), 1+r.Intn(2), 1, r.Intn(4) > 0)
			seen("join")
			for j := 0; j < 3; j++ {
				path()
				seen("path")
			}
			w.Agree()
		}
		if len(w.Refs()) < 3 {
			add(some(), 3, 0, true)
		}
	}
}

func countLibs(w *sim.World, sp *sim.Spec) int {
	n := len(w.Libs())
	for _, m := range sp.Removes {
		if m.IsLib() {
			n--
		}
	}
	return n
}

// ladder plays a short history of a small group: at most six members, joins
// with and without path by any member, commits by any member, departures.
func ladder(w *sim.World, seen func(kind string)) {
	r := w.R
	some := func() *sim.Member { refs := w.Refs(); return refs[r.Intn(len(refs))] }
	add := func(lib bool) {
		w.Commit(&sim.Spec{By: some(), Adds: []*sim.Client{w.NewClient(lib)}, AddLib: []bool{lib}, Path: r.Intn(3) > 0, Seal: w.RandSeal()})
	}
	trace := ""
	add(true)
	for i := 0; i < 7; i++ {
		k := r.Intn(8)
		if len(w.Members) > 5 && k < 5 {
			k = 5 + r.Intn(3)
		}
		switch k {
		case 0, 1:
			add(true)
			trace += "l"
		case 2:
			add(false)
			trace += "r"
		case 3, 4:
			libs := w.Libs()
			cl, ls := w.NewClients(1)
			w.Invite(libs[r.Intn(len(libs))], cl, ls)
			trace += "i"
		case 5, 6:
			w.Commit(&sim.Spec{By: some(), Path: true, Seal: w.RandSeal()})
			trace += "p"
		case 7:
			sp := &sim.Spec{By: some(), Path: true, Seal: w.RandSeal()}
			m := w.Members[r.Intn(len(w.Members))]
			if m == sp.By || (m.IsLib() && len(w.Libs()) == 1) {
				continue
			}
			sp.Removes = []*sim.Member{m}
			w.Commit(sp)
			trace += "x"
		}
		w.Agree()
	}
	seen(trace)
}
