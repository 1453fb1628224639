package checks

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C13", Level: "exploration",
		Rule:     "distinct (suite, call whose buffers were overwritten, later operation, tree shape) combinations with unchanged behaviour",
		MinEvals: 3000, MinSeen: 100,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("history", scale(tier, 96, 600), seed, nil)...)
			out = append(out, casesOf("objects", scale(tier, 32, 160), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			sim.Scribbles = true
			switch x.Case.Kind {
			case "history":
				c13History(x)
			case "objects":
				c13Objects(x)
			}
		},
	})
}

// c13History plays random histories in which every buffer is overwritten as
// soon as a call returns.
func c13History(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, func(c *sim.Cfg) { c.Scribble = true })
	max := []int{4, 6, 9, 14}[r.Intn(4)]
	grow(w, 2+r.Intn(max-1))
	addKinds(w, 2, 1)
	for i := 0; i < 6+r.Intn(8); i++ {
		if r.Intn(3) == 0 { // proposals stay pending while buffers change
			c := w.NewClient(false)
			ref := w.Propose(w.Witness(), pAdd(c.M), &refmls.SealOpts{Public: r.Intn(2) == 0})
			w.Agree()
			by := w.Refs()[r.Intn(len(w.Refs()))]
			res := by.Ref.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{{Ref: ref}}, Path: r.Intn(2) == 0, Seal: w.RandSeal()})
			w.Apply(&sim.Spec{By: by, Adds: []*sim.Client{c}, AddLib: []bool{false}}, res)
		}
		k := w.RandomStep(max)
		if len(w.Members) <= 8 {
			w.AgreeAll()
		} else {
			w.Agree()
		}
		x.Seen("history|%d|%s|%s", w.S.ID, k, w.Shape())
	}
}

// c13Objects looks at key packages, welcomes, references and credentials.
func c13Objects(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	same := func(what string, got, want []byte) {
		x.Eval(1)
		if !bytes.Equal(got, want) {
			x.Fail("changed", "%s changed after the caller overwrote a buffer", what)
		}
	}
	w := newWorld(x, nil)
	for k := 0; k < 12; k++ {
		o := &refmls.MemberOpts{}
		if r.Intn(2) == 0 {
			o = w.RandOpts()
		}
		m := refmls.NewMember(s, r, o)
		raw := m.KP.MsgBytes()
		buf := sim.Lend(x, raw)
		var kp *mls.KeyPackage
		var err error
		x.Lib("UnmarshalKeyPackage", func() { kp, err = mls.UnmarshalKeyPackage(buf.B) })
		if err != nil {
			x.Fail("decode", "valid key package refused: %v", err)
		}
		buf.Back("UnmarshalKeyPackage")
		want := s.KPRef(&m.KP)
		x.Lib("use key package", func() {
			same("a decoded key package", sim.Keep(kp.Bytes()), raw)
			ref, err := kp.GenerateRef()
			if err != nil {
				x.Fail("ref", "%v", err)
			}
			same("a reference", sim.Keep(ref), want)
			ref, _ = kp.GenerateRef()
			same("a key package whose reference was overwritten", ref, want)
			same("a key package whose encoding was overwritten", sim.Keep(kp.Bytes()), raw)
			// a copied variable
			kp2 := *kp
			*kp = mls.KeyPackage{}
			same("a copied key package", kp2.Bytes(), raw)
		})
		x.Seen("kp|%d|%s", s.ID, sizeClass(len(raw)/100))
	}
	for k := 0; k < 6; k++ {
		n := 1 + r.Intn(4)
		m0 := refmls.NewMember(s, r, nil)
		g := refmls.Create(randGID(r), m0, 5, nil, r)
		var list []refmls.ProposalOrRef
		var cl []*refmls.Member
		for i := 0; i < n; i++ {
			m := refmls.NewMember(s, r, nil)
			cl = append(cl, m)
			list = append(list, val(pAdd(m)))
		}
		res := g.Commit(&refmls.CommitOpts{List: list, Path: r.Intn(2) == 0})
		raw := res.Welcome.MsgBytes()
		buf := sim.Lend(x, raw)
		var wel *mls.Welcome
		var err error
		x.Lib("UnmarshalWelcome", func() { wel, err = mls.UnmarshalWelcome(buf.B) })
		if err != nil {
			x.Fail("decode", "valid welcome refused: %v", err)
		}
		buf.Back("UnmarshalWelcome")
		for round := 0; round < 2; round++ {
			x.Lib("use welcome", func() {
				same("a decoded Welcome", sim.Keep(wel.Bytes()), raw)
				refs := wel.NewMembers()
				if len(refs) != n {
					x.Fail("changed", "a Welcome lists %d members, want %d", len(refs), n)
				}
				for i := range refs {
					same(fmt.Sprintf("entry %d of a Welcome", i), sim.Keep(refs[i]), s.KPRef(&cl[i].KP))
					refs[i] = nil
				}
			})
			for i, m := range cl {
				kpp := sim.LibClientFrom(x, m)
				lk := sim.LendKPP(x, kpp)
				var lg *mls.Group
				x.Lib("GroupFromWelcome", func() { lg, err = mls.GroupFromWelcome(wel, lk.KPP) })
				if err != nil {
					x.Fail("join", "invitee %d cannot join in round %d: %v", i, round, err)
				}
				lk.Back("GroupFromWelcome")
				data := refmls.Bytes(r, 20)
				msg := res.Next.App(data, nil)
				b := sim.Lend(x, msg)
				var out []byte
				x.Lib("process", func() { out, err = lg.UnmarshalAndProcessMessage(b.B) })
				b.Back("UnmarshalAndProcessMessage")
				if err != nil || !bytes.Equal(out, data) {
					x.Fail("changed", "a newcomer does not read the group: %v", err)
				}
				sim.Scribble(out)
			}
		}
		x.Seen("welcome|%d|%d", s.ID, n)
	}
	// one credential, one identity buffer for several packages
	id := refmls.Bytes(r, 1+r.Intn(40))
	buf := sim.Lend(x, id)
	var cred *mls.Credential
	var kpps []*mls.KeyPairPackage
	x.Lib("GenerateKeyPairPackage", func() {
		cred = mls.NewBasicCredential(buf.B)
		for i := 0; i < 3; i++ {
			kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s.ID), cred)
			if err != nil {
				x.Fail("generate", "%v", err)
			}
			kpps = append(kpps, kpp)
		}
	})
	buf.Back("GenerateKeyPairPackage")
	*cred = *mls.NewBasicCredential([]byte("other"))
	for _, kpp := range kpps {
		m := sim.MirrorOf(x, s, kpp)
		same("the identity of a generated key package", m.KP.Leaf.Cred.Identity, id)
		if err := refmls.VerifyKeyPackage(s, &m.KP, unixNow()); err != nil {
			x.Fail("changed", "a generated key package is not valid after the identity buffer was overwritten: %v", err)
		}
	}
	x.Seen("credential|%d", s.ID)
}
