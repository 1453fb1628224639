package checks

import (
	"bytes"
	"fmt"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C12", Level: "exploration",
		Rule: "distinct (suite, sender kind, distance from the previous generation of that sender, first or repeated presentation, what happened in between) deliveries",
		Assumptions: []string{
			"generations up to 2^17 apart; a receiver may refuse generations that are further apart than any plausible loss",
			"a message presented to its own sender is not judged",
		},
		MinEvals: 10000, MinSeen: 100,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("schedule", scale(tier, 128, 800), seed, nil)...)
			out = append(out, casesOf("exhaustive", scale(tier, 16, 16), seed, nil)...)
			out = append(out, casesOf("far", scale(tier, 4, 24), seed, nil)...)
			out = append(out, casesOf("many", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("crowd", scale(tier, 4, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "crowd" {
				crowdDelivery(x)
				return
			}
			switch x.Case.Kind {
			case "schedule":
				c12Schedule(x)
			case "exhaustive":
				c12Exhaustive(x)
			case "far":
				c12Far(x)
			case "many":
				c12Many(x)
			}
		},
	})
}

type mail struct {
	raw, data []byte
	from      *sim.Member
	gen       uint32
}

// send makes a member send, reference members skipping generations.
func send(w *sim.World, from *sim.Member, data []byte, skip uint32) *mail {
	if from.IsLib() {
		raw := w.LibApp(from, data)
		return &mail{raw, data, from, openBy(w, from, raw).Gen}
	}
	g := from.Ref.AppGen + skip
	raw := from.Ref.App(data, &refmls.SealOpts{Gen: &g, Pad: w.R.Intn(2) * w.R.Intn(70)})
	if from.Ref.AppGen <= g {
		from.Ref.AppGen = g + 1
	}
	return &mail{raw, data, from, g}
}

// first and again deliver to a library member.
func first(w *sim.World, to *sim.Member, m *mail, how string) {
	out, err := w.LibProcess(to, m.raw)
	w.X.Eval(1)
	if err != nil {
		w.X.Fail("refused", "%s refused a message of %s (generation %d) on first presentation (%s): %v", to.Name, m.from.Name, m.gen, how, err)
	}
	if !bytes.Equal(out, m.data) {
		w.X.Fail("data", "%s returned %d bytes, %s sent %d", to.Name, len(out), m.from.Name, len(m.data))
	}
}

func again(w *sim.World, to *sim.Member, m *mail, how string) {
	out, err := w.LibProcess(to, m.raw)
	w.X.Eval(1)
	if err == nil || len(out) > 0 {
		w.X.Fail("replay", "%s returned a message of %s (generation %d) again (%s): %d bytes, error %v", to.Name, m.from.Name, m.gen, how, len(out), err)
	}
}

func c12Schedule(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, nil)
	grow(w, 2+r.Intn(7))
	addKinds(w, 2, 2)
	rounds := 1 + r.Intn(3)
	var olds []*mail
	for round := 0; round < rounds; round++ {
		// messages of the epoch
		var ms []*mail
		n := 10 + r.Intn(50)
		for i := 0; i < n; i++ {
			from := w.Members[r.Intn(len(w.Members))]
			var skip uint32
			switch r.Intn(12) {
			case 0:
				skip = uint32(r.Intn(5))
			case 1:
				skip = uint32(r.Intn(60))
			case 2:
				if i%8 == 0 {
					skip = uint32(r.Intn(1500))
				}
			}
			data := w.SmallPayload()
			switch r.Intn(6) {
			case 0:
				data = []byte{}
			case 1:
				data = []byte("the same")
			}
			ms = append(ms, send(w, from, data, skip))
		}
		ended := false
		for _, to := range w.Libs() {
			lose := r.Intn(100)
			lastGen := map[*sim.Member]int64{}
			delivered := []*mail{}
			order := r.Perm(len(ms))
			if r.Intn(3) == 0 { // nearly in order
				for i := range order {
					order[i] = i
				}
				for k := 0; k < 5; k++ {
					i, j := r.Intn(len(order)), r.Intn(len(order))
					order[i], order[j] = order[j], order[i]
				}
			} else if r.Intn(3) == 0 { // backwards
				for i := range order {
					order[i] = len(order) - 1 - i
				}
			}
			between := "nothing"
			for _, i := range order {
				m := ms[i]
				if m.from == to || r.Intn(100) < lose {
					continue
				}
				first(w, to, m, between)
				d := "first"
				if g, ok := lastGen[m.from]; ok {
					d = dist(int64(m.gen) - g)
				}
				lastGen[m.from] = int64(m.gen)
				x.Seen("first|%d|%v|%s|%s", w.S.ID, m.from.IsLib(), d, between)
				delivered = append(delivered, m)
				between = "nothing"
				switch r.Intn(6) {
				case 0:
					again(w, to, m, "at once")
					x.Seen("again|%d|%v|at once", w.S.ID, m.from.IsLib())
				case 1:
					o := delivered[r.Intn(len(delivered))]
					again(w, to, o, "later")
					x.Seen("again|%d|%v|later|%s", w.S.ID, o.from.IsLib(), dist(int64(o.gen)-lastGen[o.from]))
				case 2: // a damaged copy of a message still to come
					o := ms[r.Intn(len(ms))]
					b := flip(o.raw, 8*len(o.raw)-1-r.Intn(60))
					x.Lib("process", func() { to.Lib.UnmarshalAndProcessMessage(b) })
					between = "damaged message"
				case 3: // the receiver sends
					m := send(w, to, []byte("busy"), 0)
					w.ExpectApp(w.Witness(), m.raw, m.data, to.Name)
					between = "own message"
				case 4: // a handshake message of the same sender
					if !m.from.IsLib() && !ended {
						raw, _ := m.from.Ref.Propose(pAdd(w.NewClient(false).M), &refmls.SealOpts{Public: r.Intn(3) == 0})
						w.DeliverProposal(raw, m.from)
						between = "proposal"
					}
				case 5:
					w.Prepare(to, []*sim.Client{w.NewClient(false)})
					between = "prepared invitation"
				}
			}
			for _, m := range delivered {
				again(w, to, m, "at the end")
			}
			for _, m := range olds {
				if m.from != to {
					again(w, to, m, "in a later epoch")
				}
			}
		}
		olds = append(olds, ms...)
		if len(olds) > 40 {
			olds = olds[len(olds)-40:]
		}
		w.RandomStep(10)
		addKinds(w, 2, 2)
		x.Sample("%d messages, %d members", n, len(w.Members))
	}
}

func dist(d int64) string {
	s := "+"
	if d < 0 {
		s, d = "-", -d
	}
	switch {
	case d <= 3:
		return fmt.Sprint(s, d)
	case d <= 20:
		return s + "<=20"
	case d <= 200:
		return s + "<=200"
	}
	return s + ">200"
}

// c12Exhaustive delivers four messages of two senders in every order.
func c12Exhaustive(x *run.Ctx) {
	w := newWorld(x, func(c *sim.Cfg) { c.GID = []byte("x") })
	// two library members send, one receives
	addKinds(w, 3, 2)
	libs, refs := w.Libs(), w.Refs()
	to := libs[2]
	sets := [][]*sim.Member{{libs[0], libs[0], libs[0], libs[0]}, {libs[0], libs[0], refs[0], refs[0]}, {libs[0], libs[1], refs[0], refs[1]}, {refs[0], refs[0], refs[0], libs[1]}}
	si := int(x.P("i") / 4)
	for _, set := range sets[si : si+1] {
		perms := [][]int{}
		var gen func(p []int, rest []int)
		gen = func(p []int, rest []int) {
			if len(rest) == 0 {
				perms = append(perms, append([]int{}, p...))
				return
			}
			for i := range rest {
				nr := append(append([]int{}, rest[:i]...), rest[i+1:]...)
				gen(append(p, rest[i]), nr)
			}
		}
		gen(nil, []int{0, 1, 2, 3})
		for pi, perm := range perms {
			for mask := 1; mask < 16; mask++ {
				var ms []*mail
				for i, from := range set {
					ms = append(ms, send(w, from, []byte{byte(i), byte(mask)}, 0))
				}
				for k, i := range perm {
					if mask&(1<<k) == 0 {
						continue // lost
					}
					first(w, to, ms[i], fmt.Sprintf("order %v mask %x", perm, mask))
					for _, j := range perm[:k+1] {
						if mask&(1<<indexOf(perm, j)) != 0 {
							again(w, to, ms[j], fmt.Sprintf("order %v mask %x", perm, mask))
						}
					}
				}
				x.Seen("exhaustive|%d|%d|%d|%x", w.S.ID, si, pi, mask)
			}
			if pi%8 == 7 { // keep generations small
				w.Commit(&sim.Spec{By: refs[0], Path: true, Seal: w.RandSeal()})
			}
		}
	}
}

func indexOf(p []int, v int) int {
	for i := range p {
		if p[i] == v {
			return i
		}
	}
	return -1
}

// c12Far uses generations far apart.
func c12Far(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, nil)
	addKinds(w, 1, 2)
	to := w.Libs()[0]
	from := w.Witness()
	var ms []*mail
	for _, skip := range []uint32{0, 250, 3, 700, 1, 1020, 8000, 0, 50000, 0, 70000} {
		ms = append(ms, send(w, from, w.SmallPayload(), skip+uint32(r.Intn(5))))
	}
	for _, i := range r.Perm(len(ms)) {
		first(w, to, ms[i], "far apart")
		again(w, to, ms[i], "far apart")
		x.Seen("far|%d|%d", w.S.ID, i)
	}
	for _, i := range r.Perm(len(ms)) {
		again(w, to, ms[i], "far apart, at the end")
	}
	// generations that are equal in their low bits
	w.Commit(&sim.Spec{By: from, Path: true, Seal: w.RandSeal()})
	ms = ms[:0]
	for _, skip := range []uint32{1, 0, 0, 253, 0, 65536 - 257 - uint32(r.Intn(3)), 0, 0, 0, 253} {
		ms = append(ms, send(w, from, w.SmallPayload(), skip))
	}
	for _, i := range r.Perm(len(ms)) {
		first(w, to, ms[i], "similar generations")
	}
	for _, i := range r.Perm(len(ms)) {
		again(w, to, ms[i], "similar generations")
	}
	x.Seen("similar|%d", w.S.ID)
}

// c12Many presents thousands of messages of one epoch, then all of them again.
func c12Many(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, nil)
	addKinds(w, 2, 3)
	to := w.Libs()[0]
	var ms []*mail
	for i := 0; i < 3000; i++ {
		from := w.Members[r.Intn(len(w.Members))]
		if i < 1200 { // many of one sender in a row
			from = w.Witness()
		}
		if from == to {
			continue
		}
		ms = append(ms, send(w, from, []byte{byte(i), byte(i >> 8)}, 0))
	}
	// presented nearly in order, some not at all for a long time
	var late, done []*mail
	for _, m := range ms {
		if r.Intn(50) == 0 {
			late = append(late, m)
			continue
		}
		first(w, to, m, "among thousands")
		done = append(done, m)
		if r.Intn(8) == 0 {
			again(w, to, done[r.Intn(len(done))], "among thousands")
		}
	}
	for _, m := range late {
		first(w, to, m, "after thousands")
		done = append(done, m)
	}
	for i, m := range done {
		again(w, to, m, "after thousands")
		x.Seen("many|%d|%v|%d", w.S.ID, m.from.IsLib(), i/500)
	}
}
