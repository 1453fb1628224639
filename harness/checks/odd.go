package checks

import (
	mls "github.com/emersion/go-mls"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// odd makes groups where everybody supports two types of credentials, and one
// member after the other, at every leaf held by the reference, is the only
// one to use the second type. It then calls f, for which a member that
// supports only the first type is unacceptable.
func odd(x *run.Ctx, f func(d *den, who *sim.Member)) {
	r := x.Rng
	w := newWorld(x, func(c *sim.Cfg) {
		c.LibFound, c.X509, c.Variety, c.Able = false, false, false, true
	})
	d := &den{World: w}
	boss := w.Members[0]
	n := 4 + r.Intn(7)
	for i := 1; i < n; i++ {
		lib := i == 2 || i == n-1 || i > 1 && r.Intn(4) == 0
		w.Commit(&sim.Spec{By: boss, Adds: []*sim.Client{w.NewClient(lib)}, AddLib: []bool{lib}, Path: r.Intn(2) == 0, Seal: w.RandSeal()})
	}
	libs := w.Libs()
	d.near, d.far = libs[0], libs[len(libs)-1]
	for _, who := range w.Refs() {
		turn := func(c refmls.Credential) {
			w.Commit(&sim.Spec{By: who, Path: true, Seal: w.RandSeal(), H: refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.Cred = c }}})
			w.Agree()
		}
		was := boss.Ref.Tree.Leaf(w.LeafOf(who)).Cred
		turn(refmls.Credential{Type: 2, Certs: [][]byte{refmls.Bytes(r, 1+r.Intn(40))}})
		// the others
		var rest []*sim.Member
		for _, m := range w.Refs() {
			if m != who {
				rest = append(rest, m)
			}
		}
		d.evil, d.peer = rest[r.Intn(len(rest))], who
		if r.Intn(2) == 0 {
			d.evil, d.peer = d.peer, d.evil
		}
		f(d, who)
		turn(was)
	}
	// now it is fine
	m := refmls.NewMember(w.S, r, d.dress(&refmls.MemberOpts{}))
	w.Commit(&sim.Spec{By: boss, Adds: []*sim.Client{{M: m, Name: "late"}}, AddLib: []bool{false}, Path: r.Intn(2) == 0, Seal: w.RandSeal()})
	w.Agree()
}

func firstTypeOnly(d *den) *refmls.MemberOpts {
	caps := refmls.DefaultCaps(d.S)
	caps.Credentials = []uint16{1}
	return &refmls.MemberOpts{Identity: []byte("newcomer"), Caps: &caps}
}

func c05Odd(x *run.Ctx) {
	odd(x, func(d *den, who *sim.Member) {
		c05Try(d, rule{"add-one-credential-unsupported", func(d *den) *trial {
			return d.addWith(firstTypeOnly(d))
		}})
		if d.evil == who {
			// its own leaf would contradict itself
			d.evil, d.peer = d.peer, d.evil
		}
		c05Try(d, rule{"path-leaf-one-credential-unsupported", func(d *den) *trial {
			return &trial{raw: d.commit(nil, true, refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.Caps.Credentials = []uint16{1} }}).Raw}
		}})
	})
}

func c15Odd(x *run.Ctx) {
	odd(x, func(d *den, who *sim.Member) {
		m := refmls.NewMember(d.S, d.R, d.dress(firstTypeOnly(d)))
		res := d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, false, refmls.Hooks{})
		if _, err := d.peer.Ref.Clone().Process(res.Raw); err == nil {
			panic("the reference accepts it")
		}
		kp, err := mls.UnmarshalKeyPackage(m.KP.MsgBytes())
		if err != nil {
			x.Fail("decode", "UnmarshalKeyPackage refused a valid key package: %v", err)
		}
		for _, by := range []*sim.Member{d.near, d.far} {
			var wel *mls.Welcome
			var raw []byte
			x.Lib("CreateWelcome", func() { wel, raw, err = by.Lib.CreateWelcome([]mls.KeyPackage{*kp}) })
			x.Eval(1)
			x.Why("one-credential-unsupported", err)
			if err == nil {
				x.Fail("invited:one-credential-unsupported", "CreateWelcome accepts a key package that does not support the credential of leaf %d (suite %d)", d.LeafOf(who), d.S.ID)
			}
			if wel != nil || raw != nil {
				x.Fail("invited-and-error", "CreateWelcome returns an error and an invitation")
			}
			x.Seen("odd|%d|%d", d.S.ID, d.LeafOf(who))
		}
	})
}
