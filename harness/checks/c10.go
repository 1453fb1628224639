package checks

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C10", Level: "exploration",
		Rule: "distinct (suite, kind of message, its epoch and branch relative to the receiver, tree shape, expected outcome) deliveries",
		Assumptions: []string{
			"the delivery model accepts a message exactly if it was made for the state the receiver is in; a proposal presented twice is not judged",
		},
		MinEvals: 5000, MinSeen: 200,
		Cases: func(tier string, seed int64) []run.Case {
			return casesOf("schedule", scale(tier, 320, 2400), seed, nil)
		},
		Run: c10Schedule,
	})
}

// state of a lagging member: a branch and an epoch.
type at struct {
	branch int
	epoch  uint64
}

type post struct {
	kind   string
	at     at
	next   at // commits
	raw    []byte
	data   []byte
	public bool
	id     int      // proposals
	needs  []int    // commits: proposals by reference
	stale  bool     // never acceptable
	what   string   // of stale posts
	refs   [][]byte // proposals
}

type trace struct {
	*sim.World
	posts []*post
	c     *sim.Client // the lagging client
	nprop int
}

func (t *trace) add(p *post) *post { t.posts = append(t.posts, p); return p }

// wrong makes messages that some member writes in the current epoch but marks
// for another epoch or group, with all keys of the current one.
func (t *trace) wrong(g *refmls.Group, a at) {
	r := t.R
	for k := 0; k < 3; k++ {
		what := ""
		var mod func(c *refmls.FramedContent)
		switch r.Intn(6) {
		case 0:
			what, mod = "epoch+1", func(c *refmls.FramedContent) { c.Epoch++ }
		case 1:
			what, mod = "epoch-1", func(c *refmls.FramedContent) { c.Epoch-- }
		case 2:
			what, mod = "epoch+2^32", func(c *refmls.FramedContent) { c.Epoch += 1 << 32 }
		case 3:
			what, mod = "longer group id", func(c *refmls.FramedContent) { c.GroupID = append(append([]byte{}, c.GroupID...), 0) }
		case 4:
			if len(g.Ctx.GroupID) == 0 {
				continue
			}
			what, mod = "shorter group id", func(c *refmls.FramedContent) { c.GroupID = c.GroupID[:len(c.GroupID)-1] }
		case 5:
			if len(g.Ctx.GroupID) == 0 {
				continue
			}
			i := r.Intn(8 * len(g.Ctx.GroupID))
			what, mod = "other group id", func(c *refmls.FramedContent) { c.GroupID = flip(c.GroupID, i) }
		}
		var raw []byte
		o := refmls.SealOpts{Content: mod, Public: r.Intn(2) == 0}
		if what == "epoch-1" && g.Ctx.Epoch == 0 {
			continue
		}
		kind := r.Intn(3)
		c := g.Clone()
		switch kind {
		case 0:
			o.Public = false
			raw = c.App(t.SmallPayload(), &o)
		case 1:
			raw, _ = c.Propose(pUpdate(c.NewUpdateLeaf(nil, nil, nil)), &o)
		case 2:
			raw = c.Commit(&refmls.CommitOpts{Path: true, Seal: o}).Raw
		}
		t.add(&post{kind: "wrong", at: a, raw: raw, stale: true, what: fmt.Sprintf("%s in %s", what, []string{"application message", "proposal", "commit"}[kind])})
	}
}

// epoch plays one epoch in the world and records everything.
func (t *trace) epoch() {
	r := t.R
	a := at{0, t.Epoch}
	apps := func(n int) {
		for ; n > 0; n-- {
			from := t.Members[r.Intn(len(t.Members))]
			if from.C == t.c {
				continue
			}
			data := t.SmallPayload()
			var raw []byte
			if from.IsLib() {
				raw = t.LibApp(from, data)
			} else {
				raw = from.Ref.App(data, nil)
			}
			t.add(&post{kind: "app", at: a, raw: raw, data: data})
		}
	}
	apps(r.Intn(4))
	// the fork from here
	if r.Intn(2) == 0 {
		t.fork(a)
	}
	// proposals
	type prop struct {
		id  int
		ref []byte
		c   *sim.Client
		by  *sim.Member
	}
	var props []prop
	refs := t.Refs()
	by := refs[r.Intn(len(refs))]
	updated := map[*sim.Member]bool{}
	for k := r.Intn(4); k > 0; k-- {
		from := refs[r.Intn(len(refs))]
		o := &refmls.SealOpts{Public: r.Intn(2) == 0}
		p := prop{id: t.nprop, by: from}
		var pr *refmls.Proposal
		if r.Intn(2) == 0 && from != by && !updated[from] {
			updated[from] = true
			pr = pUpdate(from.Ref.NewUpdateLeaf(nil, nil, nil))
		} else {
			p.c = t.NewClient(false)
			pr = pAdd(p.c.M)
		}
		t.nprop++
		raw, ref := from.Ref.Propose(pr, o)
		p.ref = ref
		t.DeliverProposal(raw, from)
		props = append(props, p)
		t.add(&post{kind: "proposal", at: a, raw: raw, id: p.id, public: o.Public, refs: [][]byte{ref}})
	}
	apps(r.Intn(3))
	t.wrong(t.Witness().Ref, a)
	old := t.Witness().Ref.Clone()
	next := at{0, t.Epoch + 1}
	libs := t.Libs()
	if r.Intn(3) == 0 {
		// a library member commits; the proposals are not used
		m := libs[r.Intn(len(libs))]
		cl, ls := t.NewClients(1)
		inv := t.Prepare(m, cl)
		// and others, that lose
		for k := r.Intn(2); k > 0; k-- {
			m2 := libs[r.Intn(len(libs))]
			lost := t.Prepare(m2, []*sim.Client{t.NewClient(false)})
			t.branchFrom(a, lost.Raw, lost)
		}
		t.add(&post{kind: "commit", at: a, next: next, raw: inv.Raw})
		t.Complete(m, inv, ls)
	} else {
		p := &post{kind: "commit", at: a, next: next}
		sp := &sim.Spec{By: by}
		var list []refmls.ProposalOrRef
		for _, q := range props {
			if r.Intn(3) == 0 {
				continue
			}
			list = append(list, refmls.ProposalOrRef{Ref: q.ref})
			p.needs = append(p.needs, q.id)
			if q.c != nil {
				sp.Adds = append(sp.Adds, q.c)
				sp.AddLib = append(sp.AddLib, false)
			}
		}
		if len(t.Members) > 9 {
			for _, m := range t.Members[1:] {
				if m.C != t.c && m != by && !updated[m] && !(m.IsLib() && len(libs) < 3) && !(!m.IsLib() && len(refs) < 3) {
					sp.Removes = append(sp.Removes, m)
					list = append(list, val(pRemove(t.LeafOf(m))))
					break
				}
			}
		}
		res := by.Ref.Commit(&refmls.CommitOpts{List: list, Path: true, Seal: t.RandSeal()})
		p.raw = res.Raw
		t.add(p)
		t.Apply(sp, res)
	}
	// in the next epoch, commits that name proposals of this one
	for k := 0; k < 2 && len(props) > 0; k++ {
		g := t.Witness().Ref.Clone()
		g.Pending = append(g.Pending, old.Pending...)
		q := props[r.Intn(len(props))]
		list := []refmls.ProposalOrRef{{Ref: q.ref}}
		if q.c == nil && q.by == t.Witness() {
			continue
		}
		res := g.Commit(&refmls.CommitOpts{List: list, Path: true, Seal: t.RandSeal()})
		t.add(&post{kind: "wrong", at: next, raw: res.Raw, stale: true, what: "commit of a proposal of the previous epoch"})
	}
}

var branches int

// fork lets reference members continue differently from an epoch.
func (t *trace) fork(a at) {
	r := t.R
	m := t.Refs()[r.Intn(len(t.Refs()))]
	g := m.Ref.Clone()
	m.Ref.HSGen++ // taken by the losing commit
	branches++
	b := branches
	for k := 1 + r.Intn(2); k > 0; k-- {
		if k == 1 && r.Intn(2) == 0 {
			t.wrong(g, a)
		}
		o := &refmls.CommitOpts{Path: true, Seal: t.RandSeal()}
		if r.Intn(2) == 0 {
			o.List = append(o.List, val(pAdd(t.NewClient(false).M)))
		}
		res := g.Commit(o)
		next := at{b, a.epoch + 1}
		t.add(&post{kind: "commit", at: a, next: next, raw: res.Raw})
		g, a = res.Next, next
		for n := 1 + r.Intn(2); n > 0; n-- {
			data := t.SmallPayload()
			t.add(&post{kind: "app", at: a, raw: g.App(data, nil), data: data})
		}
		praw, ref := g.Propose(pAdd(t.NewClient(false).M), &refmls.SealOpts{Public: r.Intn(2) == 0})
		t.add(&post{kind: "proposal", at: a, raw: praw, id: t.nprop, refs: [][]byte{ref}})
		t.nprop++
	}
}

// branchFrom follows a losing library invitation through its newcomer.
func (t *trace) branchFrom(a at, raw []byte, inv *sim.Invitation) {
	branches++
	next := at{branches, a.epoch + 1}
	t.add(&post{kind: "commit", at: a, next: next, raw: raw})
	var wr []byte
	t.X.Lib("Welcome.Bytes", func() { wr = inv.Welcome.Bytes() })
	m := t.JoinRef(inv.Clients[0], wr)
	data := t.SmallPayload()
	t.add(&post{kind: "app", at: next, raw: m.Ref.App(data, nil), data: data})
}

func c10Schedule(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, func(c *sim.Cfg) { c.X509 = false })
	branches = 0
	grow(w, 2+r.Intn(5))
	addKinds(w, 2, 2)
	t := &trace{World: w, c: w.NewClient(true)}
	// the lagging members are copies of one member
	sp := &sim.Spec{By: w.Witness(), Adds: []*sim.Client{t.c}, AddLib: []bool{true}, Path: r.Intn(2) == 0, Seal: w.RandSeal()}
	res := w.Commit(sp)
	wr := res.Welcome.MsgBytes()
	start := at{0, w.Epoch}
	// earlier messages
	for _, c := range w.Commits {
		t.add(&post{kind: "wrong", at: start, raw: c, stale: true, what: "commit from before joining"})
	}
	for n := 3 + r.Intn(4); n > 0; n-- {
		t.epoch()
	}
	w.Agree()
	// another group with the same identifier and epoch number
	other := refmls.Create(w.Cfg.GID, refmls.NewMember(w.S, r, nil), start.epoch, nil, r)
	for k := 0; k < 2; k++ {
		t.add(&post{kind: "wrong", at: start, raw: other.App([]byte("other"), nil), stale: true, what: "application message of another group"})
		c := other.Commit(nil)
		t.add(&post{kind: "wrong", at: start, raw: c.Raw, stale: true, what: "commit of another group"})
		other = c.Next
	}

	for copyNo := 0; copyNo < 3; copyNo++ {
		c10Lag(t, wr, start, copyNo)
	}
	x.Stat("messages", len(t.posts))
	x.Sample("%d messages over epochs %d..%d on %d branches", len(t.posts), start.epoch, w.Epoch, branches+1)
}

func c10Lag(t *trace, wr []byte, start at, copyNo int) {
	x, r := t.X, t.R
	var g *mls.Group
	var err error
	x.Lib("GroupFromWelcome", func() {
		var wel *mls.Welcome
		if wel, err = mls.UnmarshalWelcome(wr); err == nil {
			g, err = mls.GroupFromWelcome(wel, t.c.KPP)
		}
	})
	if err != nil {
		x.Fail("join", "library client cannot join: %v", err)
	}
	cur := start
	seen := map[*post]bool{}
	known := map[int]bool{}
	byState := map[at][]*post{}
	for _, p := range t.posts {
		byState[p.at] = append(byState[p.at], p)
	}
	deliver := func(p *post) {
		expect := "refuse"
		if !p.stale && p.at == cur {
			expect = "accept"
			switch p.kind {
			case "app":
				if seen[p] {
					expect = "refuse"
				}
			case "proposal":
				if seen[p] {
					expect = "any"
				}
			case "commit":
				for _, id := range p.needs {
					if !known[id] {
						expect = "refuse"
					}
				}
			}
		}
		var out []byte
		x.Lib("UnmarshalAndProcessMessage", func() { out, err = g.UnmarshalAndProcessMessage(p.raw) })
		x.Eval(1)
		rel := "same state"
		switch {
		case p.stale:
			rel = p.what
		case p.at.branch != cur.branch && p.at.epoch == cur.epoch:
			rel = "fork of the same number"
		case p.at.epoch < cur.epoch:
			rel = "earlier"
		case p.at.epoch > cur.epoch:
			rel = "later"
		}
		x.Seen("%s|%d|%s|%s|%s", p.kind, t.S.ID, rel, expect, t.Shape())
		switch {
		case expect == "accept" && err != nil:
			x.Fail("refused", "a %s made for this state (epoch %d) was refused: %v", p.kind, cur.epoch, err)
		case expect == "refuse" && err == nil:
			x.Fail("accepted", "a %s (%s; epoch %d branch %d) was accepted in epoch %d branch %d, seen before: %v", p.kind, rel, p.at.epoch, p.at.branch, cur.epoch, cur.branch, seen[p])
		case expect == "refuse" && len(out) > 0:
			x.Fail("data", "refused %s returns data", p.kind)
		case expect == "accept" && !bytes.Equal(out, p.data):
			x.Fail("data", "a %s returns %d bytes, sent %d", p.kind, len(out), len(p.data))
		}
		if expect == "accept" {
			seen[p] = true
			switch p.kind {
			case "proposal":
				known[p.id] = true
			case "commit":
				cur = p.next
				known = map[int]bool{}
				var raw []byte
				x.Lib("CreateApplicationMessage", func() { raw, err = g.CreateApplicationMessage([]byte("where am I")) })
				e, ok := sim.WireEpoch(raw)
				if err != nil || !ok || e != cur.epoch {
					x.Fail("epoch", "after a commit of epoch %d the group sends for epoch %d (%v)", p.at.epoch, e, err)
				}
			}
		}
	}
	for n := 60 + r.Intn(150); n > 0; n-- {
		var p *post
		here := byState[cur]
		switch k := r.Intn(10); {
		case k < 4 && len(here) > 0:
			p = here[r.Intn(len(here))]
			if p.kind == "commit" && r.Intn(3) > 0 {
				p = here[r.Intn(len(here))]
			}
		default:
			p = t.posts[r.Intn(len(t.posts))]
		}
		if p.kind == "commit" && p.at == cur && p.next.branch != 0 && r.Intn(4) > 0 {
			continue
		}
		deliver(p)
	}
	// catch up on the main branch
	for cur.branch == 0 && cur.epoch < t.Epoch {
		var commit *post
		for _, p := range byState[cur] {
			if (p.kind == "proposal" && !seen[p]) || p.stale {
				deliver(p)
			}
			if p.kind == "commit" && p.next.branch == 0 {
				commit = p
			}
		}
		if commit == nil {
			panic("no commit")
		}
		deliver(commit)
	}
	if cur == (at{0, t.Epoch}) {
		x.Stat("copies that caught up", 1)
		wit := t.Witness().Ref
		data := t.SmallPayload()
		raw := wit.App(data, nil)
		var out []byte
		x.Lib("UnmarshalAndProcessMessage", func() { out, err = g.UnmarshalAndProcessMessage(raw) })
		if err != nil || !bytes.Equal(out, data) {
			x.Fail("lost", "a member that caught up does not read the group: %v", err)
		}
		x.Lib("CreateApplicationMessage", func() { raw, err = g.CreateApplicationMessage(data) })
		if err != nil {
			x.Fail("send", "%v", err)
		}
		if ev, err := wit.Clone().Process(raw); err != nil || !bytes.Equal(ev.App, data) {
			x.Fail("lost", "the group does not read a member that caught up: %v", err)
		}
		// everything again
		for _, i := range r.Perm(len(t.posts)) {
			deliver(t.posts[i])
		}
	} else {
		x.Stat("copies on a fork", 1)
	}
}
