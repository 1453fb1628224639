package checks

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C01", Level: "exploration",
		Rule: "distinct (suite, tree shape, step kind) situations in which all members were heard by all others",
		Assumptions: []string{
			"signature verification and HPKE of the Go standard library and circl are correct",
			"key updates and removals are made by conforming peers, the library has no API for making them",
		},
		MinEvals: 2000, MinSeen: 60,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("history", scale(tier, 144, 700), seed, nil)...)
			out = append(out, casesOf("pure", scale(tier, 40, 160), seed, nil)...)
			out = append(out, casesOf("grow", scale(tier, 8, 40), seed, nil)...)
			out = append(out, casesOf("ladder", scale(tier, 160, 640), seed, nil)...)
			out = append(out, casesOf("sparse", scale(tier, 64, 256), seed, nil)...)
			out = append(out, casesOf("payload", scale(tier, 8, 16), seed, nil)...)
			out = append(out, casesOf("trade", scale(tier, 8, 40), seed, nil)...)
			out = append(out, casesOf("crowd", scale(tier, 4, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "crowd" {
				c17Large(x)
				return
			}
			switch x.Case.Kind {
			case "history":
				c01History(x)
			case "pure":
				c01Pure(x)
			case "grow":
				c01Grow(x)
			case "ladder":
				for i := 0; i < 6; i++ {
					w := newWorld(x, func(c *sim.Cfg) { c.LibFound = false })
					ladder(w, func(k string) { x.Seen("ladder|%d|%s", w.S.ID, k) })
				}
			case "sparse":
				w := newWorld(x, nil)
				sparse(w, func(k string) { x.Seen("sparse|%d|%s|%s", w.S.ID, k, w.Shape()) })
			case "payload":
				c01Payload(x)
			case "trade":
				c02Trade(x)
			}
		},
	})
}

func c01History(x *run.Ctx) {
	w := newWorld(x, nil)
	max := []int{4, 6, 9, 13, 18, 34}[x.Rng.Intn(6)]
	grow(w, 2+x.Rng.Intn(max-1))
	addKinds(w, 1, 1)
	steps := 6 + x.Rng.Intn(14)
	if max > 13 {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		k := w.RandomStep(max)
		if len(w.Members) <= 9 {
			w.AgreeAll()
		} else {
			w.Agree()
		}
		x.Seen("step|%d|%s|%s", w.S.ID, k, w.Shape())
	}
	x.Stat("epochs", len(w.Commits))
}

// c01Pure has only library members.
func c01Pure(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	var groups []*mls.Group
	founder := sim.NativeClient(x, s, "f", []byte("founder"))
	var g *mls.Group
	var err error
	x.Lib("CreateGroup", func() { g, err = mls.CreateGroup(mls.GroupID(randGID(r)), founder.KPP) })
	if err != nil {
		x.Fail("create", "CreateGroup: %v", err)
	}
	groups = append(groups, g)
	max := 3 + r.Intn(12)
	for len(groups) < max {
		k := 1 + r.Intn(4)
		var kps []mls.KeyPackage
		var cl []*sim.Client
		for i := 0; i < k; i++ {
			c := sim.NativeClient(x, s, "", refmls.Bytes(r, r.Intn(40)))
			cl = append(cl, c)
			kps = append(kps, c.KPP.Public)
		}
		by := r.Intn(len(groups))
		var wel *mls.Welcome
		var raw []byte
		x.Lib("CreateWelcome", func() { wel, raw, err = groups[by].CreateWelcome(kps) })
		if err != nil {
			x.Fail("invite", "CreateWelcome by member %d of %d: %v", by, len(groups), err)
		}
		for i, g := range groups {
			x.Lib("process", func() { _, err = g.UnmarshalAndProcessMessage(raw) })
			x.Eval(1)
			if err != nil {
				x.Fail("commit-refused", "member %d of %d refused the commit of member %d: %v", i, len(groups), by, err)
			}
		}
		for _, c := range cl {
			var ng *mls.Group
			x.Lib("GroupFromWelcome", func() { ng, err = mls.GroupFromWelcome(wel, c.KPP) })
			x.Eval(1)
			if err != nil {
				x.Fail("join", "newcomer cannot join group of %d: %v", len(groups), err)
			}
			groups = append(groups, ng)
		}
		for i, from := range groups {
			data := refmls.Bytes(r, 1+r.Intn(50))
			var m []byte
			x.Lib("send", func() { m, err = from.CreateApplicationMessage(data) })
			if err != nil {
				x.Fail("send", "CreateApplicationMessage: %v", err)
			}
			for j, to := range groups {
				if i == j {
					continue
				}
				var out []byte
				x.Lib("receive", func() { out, err = to.UnmarshalAndProcessMessage(m) })
				x.Eval(1)
				if err != nil || !bytes.Equal(out, data) {
					x.Fail("app-refused", "member %d of %d does not read member %d: %v", j, len(groups), i, err)
				}
			}
		}
		x.Seen("pure|%d|%d|%d", s.ID, len(groups), k)
	}
}

// c01Grow makes larger groups, past the vector-length boundaries of trees.
func c01Grow(x *run.Ctx) {
	w := newWorld(x, func(c *sim.Cfg) { c.LibRatio = 2; c.Variety = false; c.X509 = false })
	target := []int{24, 40, 66, 70}[x.P("i")/4%4]
	if x.Case.Seed%2 == 0 {
		target++
	}
	addKinds(w, 2, 1)
	for len(w.Members) < target {
		k := min(1+w.R.Intn(16), target-len(w.Members))
		growBy(w, k)
		x.Seen("grow|%d|%s", w.S.ID, w.Shape())
	}
	w.Agree()
	// shrink again
	for len(w.Members) > 4 {
		sp := &sim.Spec{By: w.Witness(), Path: true, Seal: w.RandSeal()}
		n := 1 + w.R.Intn(len(w.Members)/2)
		for i := len(w.Members) - 1; i > 1 && len(sp.Removes) < n; i-- {
			m := w.Members[i]
			if m == sp.By || (w.R.Intn(4) == 0) {
				continue
			}
			if m.IsLib() && len(w.Libs()) <= len(sp.Removes)+1 {
				continue
			}
			sp.Removes = append(sp.Removes, m)
		}
		if len(sp.Removes) == 0 {
			break
		}
		w.Commit(sp)
		w.Agree()
		x.Seen("shrink|%d|%s", w.S.ID, w.Shape())
	}
}

// c01Payload sends payloads of every length class.
func c01Payload(x *run.Ctx) {
	w := newWorld(x, nil)
	addKinds(w, 2, 1)
	lens := []int{0, 1, 2, 15, 16, 17, 31, 32, 62, 63, 64, 65, 255, 256, 1000, 16381, 16382, 16383, 16384, 16385, 65535, 65536, 1 << 20}
	for _, n := range lens {
		for _, z := range []int{0, 1} {
			data := refmls.Bytes(x.Rng, n)
			if z == 1 {
				data = bytes.Repeat([]byte{0}, n)
			}
			for _, m := range w.Members {
				if n > 100000 && m != w.Libs()[0] {
					continue
				}
				w.Say(m, data, &refmls.SealOpts{Pad: x.Rng.Intn(2) * x.Rng.Intn(300)}, nil)
			}
			x.Seen("payload|%d|%d|%d", w.S.ID, n, z)
		}
	}
	if x.P("i") < 4 {
		// a length that needs more than three bytes
		n := 1<<24 + x.Rng.Intn(9)
		w.Say(w.Libs()[0], refmls.Bytes(x.Rng, n), &refmls.SealOpts{}, nil)
		x.Seen("payload|%d|huge", w.S.ID)
	}
	x.Sample("payload lengths %v", fmt.Sprint(lens))
}
