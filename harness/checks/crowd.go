package checks

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// Crowds: groups of several hundred members, whose leaf indices and counts
// exceed one byte.

func newCrowd(x *run.Ctx, at func(n int) int) *puppets {
	s := refmls.GetSuite(uint16(x.P("suite")))
	n := 270 + x.Rng.Intn(300)
	p := newPuppets(x, s, n, at(n))
	p.agree()
	return p
}

// highLeaf places the library member above leaf 255.
func highLeaf(x *run.Ctx) func(n int) int {
	return func(n int) int { return 256 + x.Rng.Intn(n-256) }
}

// crowdForge: messages signed by one member in the name of another one, whose
// index differs by a multiple of a power of two.
func crowdForge(x *run.Ctx) {
	at := func(n int) int { return 1 + x.Rng.Intn(n-1) }
	p := newCrowd(x, at)
	me := p.libLeaf()
	refuse := func(what string, raw []byte) {
		var out []byte
		var err error
		x.Lib("UnmarshalAndProcessMessage", func() { out, err = p.lib.UnmarshalAndProcessMessage(raw) })
		x.Eval(1)
		if err == nil || len(out) > 0 {
			x.Fail("accepted", "library member at leaf %d of %d members accepted %s", me, len(p.g.Tree.Members()), what)
		}
	}
	for _, li := range p.others()[:40] {
		for k := 0; k < 10; k++ {
			as := li ^ 1<<k
			if p.g.Tree.Leaf(as) == nil {
				continue
			}
			named := func(c *refmls.FramedContent) { c.Sender.Index = as }
			v := p.as(li)
			refuse(fmt.Sprintf("an application message of leaf %d in the name of leaf %d", li, as), v.App([]byte("x"), &refmls.SealOpts{RatchetLeaf: &as, Content: named}))
			refuse(fmt.Sprintf("an application message of leaf %d in the name of leaf %d under its own ratchet", li, as), v.App([]byte("x"), &refmls.SealOpts{RatchetLeaf: &li, Content: named}))
			for _, pub := range []bool{true, false} {
				o := &refmls.SealOpts{Public: pub, Content: named}
				if !pub {
					o.RatchetLeaf = &as
				}
				raw, _ := p.as(li).Propose(pRemove(li), o)
				refuse(fmt.Sprintf("a proposal of leaf %d in the name of leaf %d (public %v)", li, as, pub), raw)
			}
			x.Seen("crowd|%d|%d|%d", p.s.ID, k, li/64)
		}
	}
	p.agree()
	p.commit(p.others()[0], nil, nil, 1, true)
	p.agree()
}

// crowdKeys accounts the emissions of a member far to the right.
func crowdKeys(x *run.Ctx) {
	p := newCrowd(x, highLeaf(x))
	gens := map[string]bool{}
	see := func(what string, raw []byte) {
		v := p.as(p.others()[0])
		v.Lenient = true
		_, ev, err := v.Open(raw)
		x.Eval(1)
		if err != nil {
			x.Fail("emission", "conforming member cannot open a message of leaf %d: %v", p.libLeaf(), err)
		}
		if ev.Sender != p.libLeaf() {
			x.Fail("sender", "leaf %d sends as leaf %d", p.libLeaf(), ev.Sender)
		}
		id := fmt.Sprint(p.g.Ctx.Epoch, ev.Type == refmls.ContentApp, ev.Gen)
		if gens[id] {
			x.Fail("key-reuse", "leaf %d encrypted two messages with generation %d", ev.Sender, ev.Gen)
		}
		gens[id] = true
		x.Seen("crowd|%d|%s|%d", p.s.ID, what, ev.Gen)
	}
	kp := sim.LibClientFrom(x, p.member()).Public
	for round := 0; round < 3; round++ {
		for i := 0; i < 8; i++ {
			var raw []byte
			var err error
			what := "message"
			x.Lib("send", func() {
				if i%3 == 2 {
					what = "invitation"
					_, raw, err = p.lib.CreateWelcome([]mls.KeyPackage{kp})
				} else {
					raw, err = p.lib.CreateApplicationMessage([]byte("hello"))
				}
			})
			if err != nil {
				x.Fail("send", "%v", err)
			}
			see(what, raw)
		}
		p.commit(p.others()[0], nil, nil, 0, true)
	}
}

// crowdDelivery: everybody sends, in any order, each message once.
func crowdDelivery(x *run.Ctx) {
	p := newCrowd(x, func(n int) int { return 1 + x.Rng.Intn(n-1) })
	p.commit(p.others()[0], nil, nil, 0, true) // a new epoch
	type parcel struct {
		raw, data []byte
		from, gen uint32
	}
	var ps []parcel
	for _, li := range p.others() {
		v := p.as(li)
		for _, gen := range []uint32{0, uint32(x.Rng.Intn(4)) + 1, 256}[:1+x.Rng.Intn(3)] {
			data := []byte(fmt.Sprint(li, gen))
			ps = append(ps, parcel{v.App(data, &refmls.SealOpts{Gen: &gen}), data, li, gen})
		}
	}
	for _, i := range x.Rng.Perm(len(ps)) {
		q := ps[i]
		for k := 0; k < 2; k++ {
			var out []byte
			var err error
			x.Lib("UnmarshalAndProcessMessage", func() { out, err = p.lib.UnmarshalAndProcessMessage(q.raw) })
			x.Eval(1)
			if k == 0 && (err != nil || !bytes.Equal(out, q.data)) {
				x.Fail("refused", "a message of leaf %d (generation %d) in a group of %d is refused on first presentation: %v", q.from, q.gen, len(p.g.Tree.Members()), err)
			}
			if k == 1 && (err == nil || len(out) > 0) {
				x.Fail("replay", "a message of leaf %d is returned again", q.from)
			}
		}
		x.Seen("crowd|%d|%d|%d", p.s.ID, q.from/32, q.gen)
	}
	for _, i := range x.Rng.Perm(len(ps)) {
		var out []byte
		var err error
		x.Lib("UnmarshalAndProcessMessage", func() { out, err = p.lib.UnmarshalAndProcessMessage(ps[i].raw) })
		x.Eval(1)
		if err == nil || len(out) > 0 {
			x.Fail("replay", "a message of leaf %d is returned again at the end", ps[i].from)
		}
	}
}

// crowdInvite invites hundreds at once.
func crowdInvite(x *run.Ctx) {
	s := refmls.GetSuite(uint16(x.P("suite")))
	p := newPuppets(x, s, 2+x.Rng.Intn(20), 1)
	n := 257 + x.Rng.Intn(120)
	var ms []*refmls.Member
	var kps []mls.KeyPackage
	for i := 0; i < n; i++ {
		m := p.member()
		ms = append(ms, m)
		kps = append(kps, sim.LibClientFrom(x, m).Public)
	}
	var w *mls.Welcome
	var raw []byte
	var err error
	x.Lib("CreateWelcome", func() { w, raw, err = p.lib.CreateWelcome(kps) })
	if err != nil {
		x.Fail("invite", "%d members cannot be invited: %v", n, err)
	}
	refs := w.NewMembers()
	if len(refs) != n {
		x.Fail("listed", "the invitation of %d members lists %d", n, len(refs))
	}
	wel, err := refmls.ParseWelcome(w.Bytes())
	if err != nil {
		x.Fail("welcome-parse", "%v", err)
	}
	for i, m := range ms {
		x.Eval(1)
		if !bytes.Equal(refs[i], s.KPRef(&m.KP)) {
			x.Fail("listed", "new member %d of %d is not key package %d", i, n, i)
		}
		if _, err := s.DecryptWithLabel(m.InitPriv, "Welcome", wel.EncGroupInfo, wel.Secrets[i].Ct); err != nil {
			x.Fail("welcome-meaning", "entry %d of the Welcome is not for key package %d: %v", i, i, err)
		}
	}
	before := p.g.Tree.Clone()
	p.g.Lenient = true
	if _, err := p.g.Process(raw); err != nil {
		x.Fail("emission", "conforming member refuses the commit adding %d members: %v", n, err)
	}
	x.Lib("process", func() { _, err = p.lib.UnmarshalAndProcessMessage(raw) })
	if err != nil {
		x.Fail("own-commit", "%v", err)
	}
	for _, li := range before.Members() {
		if l := p.g.Tree.Leaf(li); l == nil || !bytes.Equal(before.Leaf(li).Sig, l.Sig) {
			x.Fail("moved", "the member at leaf %d changed", li)
		}
	}
	if got := len(p.g.Tree.Members()); got != len(before.Members())+n {
		x.Fail("membership", "%d members after adding %d to %d", got, n, len(before.Members()))
	}
	for _, i := range []int{0, 1 + x.Rng.Intn(n-2), 255, 256, n - 1} {
		g, err := refmls.Join(wel, ms[i], &refmls.JoinOpts{Rng: x.Rng})
		if err != nil {
			x.Fail("welcome", "invitee %d of %d cannot join: %v", i, n, err)
		}
		if !bytes.Equal(g.EpochSecret, p.g.EpochSecret) {
			x.Fail("welcome", "invitee %d of %d joined another epoch", i, n)
		}
		var lg *mls.Group
		x.Lib("GroupFromWelcome", func() { lg, err = mls.GroupFromWelcome(w, sim.LibClientFrom(x, ms[i])) })
		if err != nil {
			x.Fail("join", "library invitee %d of %d cannot join: %v", i, n, err)
		}
		var msg []byte
		x.Lib("CreateApplicationMessage", func() { msg, err = lg.CreateApplicationMessage([]byte("here")) })
		if err != nil {
			x.Fail("send", "%v", err)
		}
		var out []byte
		x.Lib("UnmarshalAndProcessMessage", func() { out, err = p.lib.UnmarshalAndProcessMessage(msg) })
		if err != nil || string(out) != "here" {
			x.Fail("disagree", "the inviter does not read invitee %d of %d: %v", i, n, err)
		}
		x.Eval(3)
	}
	x.Seen("crowd|%d|%d", s.ID, n)
}

// crowdJoin: invitations into large groups with one broken leaf.
func crowdJoin(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	n := 270 + r.Intn(200)
	var base []*refmls.Member
	for i := 0; i < n; i++ {
		base = append(base, refmls.NewMember(s, r, nil))
	}
	for k, name := range []string{"none", "leaf signature", "duplicate signature key", "duplicate encryption key", "signature of another leaf"} {
		ms := append([]*refmls.Member{}, base...)
		at := 256 + r.Intn(n-256)
		if k%2 == 0 {
			at = r.Intn(n)
		}
		me := (at + 1 + r.Intn(n-1)) % n
		other := ms[(at+2+r.Intn(n-3))%n]
		if other == ms[at] {
			continue
		}
		switch name {
		case "leaf signature":
			ms[at] = refmls.NewMember(s, r, &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, 100) }})
		case "duplicate signature key":
			ms[at] = refmls.NewMember(s, r, &refmls.MemberOpts{SigPub: other.KP.Leaf.SigKey, SigPriv: other.SigPriv})
		case "duplicate encryption key":
			ms[at] = refmls.NewMember(s, r, &refmls.MemberOpts{EncPub: other.KP.Leaf.EncKey, EncPriv: other.EncPriv})
		case "signature of another leaf":
			ms[at] = refmls.NewMember(s, r, &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Sig = append([]byte{}, other.KP.Leaf.Sig...) }})
		}
		g := refmls.Create(refmls.Bytes(r, 8), refmls.NewMember(s, r, nil), 0, nil, r)
		res := g.Commit(&refmls.CommitOpts{List: addsOf(ms), Path: r.Intn(2) == 0})
		var lg *mls.Group
		var err error
		x.Lib("GroupFromWelcome", func() {
			var w *mls.Welcome
			if w, err = mls.UnmarshalWelcome(res.Welcome.MsgBytes()); err == nil {
				lg, err = mls.GroupFromWelcome(w, sim.LibClientFrom(x, ms[me]))
			}
		})
		x.Eval(1)
		if name == "none" {
			if err != nil {
				x.Fail("honest-refused", "cannot join a valid group of %d: %v", n, err)
			}
			continue
		}
		if err == nil || lg != nil {
			x.Fail("joined", "joined a group of %d members whose member %d is invalid (%s)", n+1, at+1, name)
		}
		x.Why(name, err)
		x.Seen("crowd|%d|%s|%d", s.ID, name, at/128)
	}
}
