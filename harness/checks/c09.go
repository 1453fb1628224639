package checks

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C09", Level: "exploration",
		Rule: "distinct (suite, kind of outsider, kind of message, tree shape) combinations in which an outsider was refused",
		Assumptions: []string{
			"outsiders use the library or the reference implementation with all keys they ever held; cryptanalysis is out of scope",
		},
		MinEvals: 3000, MinSeen: 150,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("removal", scale(tier, 96, 600), seed, nil)...)
			out = append(out, casesOf("parallel", scale(tier, 32, 200), seed, nil)...)
			out = append(out, casesOf("outsider", scale(tier, 40, 200), seed, nil)...)
			out = append(out, casesOf("process", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("entropy", scale(tier, 8, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			switch x.Case.Kind {
			case "removal":
				c09Removal(x)
			case "parallel":
				c09Parallel(x)
			case "outsider":
				c09Outsider(x)
			case "process":
				c09Process(x)
			case "entropy":
				c09Entropy(x)
			}
		},
	})
}

// deaf requires that a library group refuses a message.
func deaf(x *run.Ctx, g *mls.Group, who, what string, raw []byte) {
	var out []byte
	var err error
	x.Lib("UnmarshalAndProcessMessage by "+who, func() { out, err = g.UnmarshalAndProcessMessage(raw) })
	x.Eval(1)
	if err == nil || len(out) > 0 {
		x.Fail("read", "%s accepts %s (%d bytes returned, error %v)", who, what, len(out), err)
	}
}

// watch scans what library members emit for secrets of the group.
func watch(w *sim.World) {
	x := w.X
	w.OnLibMsg = func(m *sim.Member, raw []byte, ev *refmls.Event) {
		g := w.Witness().Ref
		scan := func(what string, b []byte) {
			if len(b) >= 8 && bytes.Contains(raw, b) {
				x.Fail("leak", "%s of the group appears in a message of %s", what, m.Name)
			}
		}
		scan("the payload", ev.App)
		scan("the epoch secret", g.EpochSecret)
		scan("the init secret", g.InitSecret)
		scan("the joiner secret", g.Joiner)
		for _, l := range []string{"sender data", "encryption", "exporter", "confirm", "membership", "resumption", "authentication"} {
			scan("the secret "+l, g.Secret(l))
		}
		for _, k := range [][]byte{m.C.M.InitPriv, m.C.M.EncPriv, m.C.M.SigPriv} {
			scan("a private key", k)
		}
		x.Eval(1)
	}
}

// c09Removal removes members in every position and keeps telling them
// everything.
func c09Removal(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, func(c *sim.Cfg) { c.X509 = false })
	watch(w)
	max := []int{4, 6, 9, 14}[r.Intn(4)]
	grow(w, 3+r.Intn(max-2))
	addKinds(w, 2, 2)
	type ghost struct {
		*sim.Member
		how string
	}
	var ghosts []ghost
	// old states of reference members, for attempts of removed members
	type past struct {
		g   *refmls.Group
		how string
	}
	var pasts []past
	haunt := func(what string, raw []byte) {
		for _, g := range ghosts {
			deaf(x, g.Lib, "removed member "+g.Name, what, raw)
			x.Seen("removed|%d|%s|%s|%s", w.S.ID, g.how, what, w.Shape())
		}
		for _, p := range pasts {
			if _, err := p.g.Clone().Process(raw); err == nil {
				x.Fail("read", "a removed conforming member can process %s", what)
			}
			x.Eval(1)
		}
	}
	for round := 0; round < 4+r.Intn(4); round++ {
		// choose a library member to remove
		libs := w.Libs()
		if len(libs) < 2 {
			addKinds(w, 3, 2)
			libs = w.Libs()
		}
		var victims []*sim.Member
		how := ""
		switch r.Intn(4) {
		case 0: // the rightmost member, the tree may shrink
			victims = []*sim.Member{libs[len(libs)-1]}
			how = "last"
		case 1: // several
			for _, m := range libs[1:] {
				if r.Intn(2) == 0 {
					victims = append(victims, m)
				}
			}
			how = "several"
		case 2:
			victims = []*sim.Member{libs[0]}
			how = "first"
		}
		if len(victims) == 0 {
			victims = []*sim.Member{libs[r.Intn(len(libs))]}
			how = "any"
		}
		refs := w.Refs()
		by := refs[r.Intn(len(refs))]
		if len(refs) > 2 && r.Intn(2) == 0 {
			for _, m := range refs {
				if m != by && m != w.Witness() {
					victims = append(victims, m)
					pasts = append(pasts, past{m.Ref.Clone(), how})
					break
				}
			}
		}
		sp := &sim.Spec{By: by, Removes: victims, Path: true, Seal: w.RandSeal(), ByRef: r.Intn(2) == 0}
		if r.Intn(2) == 0 { // somebody takes the place in the same commit
			sp.Adds, sp.AddLib = w.NewClients(1 + r.Intn(2))
			how += " replaced"
		}
		if sp.Seal.Public {
			how += " public"
		}
		res := w.Build(sp)
		w.Apply(sp, res) // also requires that the removed members refuse it
		for _, m := range victims {
			if m.IsLib() {
				ghosts = append(ghosts, ghost{m, how})
				x.Eval(1)
			}
		}
		haunt("the removing commit", res.Raw)
		// later traffic of all kinds
		for k := 0; k < 2+r.Intn(3); k++ {
			from := w.Members[r.Intn(len(w.Members))]
			data := w.SmallPayload()
			var raw []byte
			if from.IsLib() {
				raw = w.LibApp(from, data)
			} else {
				raw = from.Ref.App(data, nil)
			}
			for _, m := range w.Members {
				if m != from {
					w.ExpectApp(m, raw, data, from.Name)
				}
			}
			haunt("an application message", raw)
		}
		wit := w.Witness()
		raw, _ := wit.Ref.Propose(pUpdate(wit.Ref.NewUpdateLeaf(nil, nil, nil)), &refmls.SealOpts{Public: r.Intn(2) == 0})
		w.DeliverProposal(raw, wit)
		haunt("a proposal", raw)
		// a later epoch, perhaps with the removed member back under a new
		// key package
		n := len(w.Commits)
		switch r.Intn(3) {
		case 0:
			libs := w.Libs()
			cl, ls := w.NewClients(1 + r.Intn(2))
			w.Invite(libs[r.Intn(len(libs))], cl, ls)
		case 1:
			refs := w.Refs()
			w.Commit(&sim.Spec{By: refs[r.Intn(len(refs))], Path: true, Seal: w.RandSeal()})
		case 2:
			v := victims[0]
			c := *v.C
			back := refmls.NewMember(w.S, r, &refmls.MemberOpts{Identity: v.C.M.KP.Leaf.Cred.Identity, SigPub: v.C.M.KP.Leaf.SigKey, SigPriv: v.C.M.SigPriv})
			c.M, c.Name, c.Native = back, c.Name+"'", false
			c.KPP = sim.LibClientFrom(x, back)
			w.Commit(&sim.Spec{By: w.Witness(), Adds: []*sim.Client{&c}, AddLib: []bool{true}, Path: r.Intn(2) == 0, Seal: w.RandSeal()})
		}
		for _, c := range w.Commits[n:] {
			haunt("a later commit", c)
		}
		w.AgreeAll()
		// what a removed member sends is not heard either
		if len(ghosts) > 0 {
			g := ghosts[r.Intn(len(ghosts))]
			var raw []byte
			var err error
			x.Lib("CreateApplicationMessage of a removed member", func() { raw, err = g.Lib.CreateApplicationMessage([]byte("boo")) })
			if err == nil {
				for _, m := range w.Libs() {
					deaf(x, m.Lib, m.Name, "a message of a removed member", raw)
				}
			}
		}
		x.Sample("removed %s, %d ghosts", how, len(ghosts))
	}
}

// c09Parallel plays groups that share identifier, members and key packages.
func c09Parallel(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	gid := mls.GroupID(randGID(r))
	founder := sim.NativeClient(x, s, "founder", []byte("founder"))
	guests := make([]*sim.Client, 2+r.Intn(3))
	for i := range guests {
		guests[i] = sim.NativeClient(x, s, "guest", []byte{byte(i)})
	}
	type grp struct {
		members []*mls.Group
		refs    []*refmls.Group
		raws    [][]byte
	}
	var grps []*grp
	joiners := map[string]bool{}
	kems := map[string]bool{}
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		var g *mls.Group
		var err error
		x.Lib("CreateGroup", func() { g, err = mls.CreateGroup(gid, founder.KPP) })
		if err != nil {
			x.Fail("create", "CreateGroup: %v", err)
		}
		gr := &grp{members: []*mls.Group{g}}
		grps = append(grps, gr)
		var kps []mls.KeyPackage
		for _, c := range guests {
			kps = append(kps, c.KPP.Public)
		}
		var wel *mls.Welcome
		var raw, wraw []byte
		x.Lib("CreateWelcome", func() {
			wel, raw, err = g.CreateWelcome(kps)
			if err == nil {
				wraw = wel.Bytes()
				_, err = g.UnmarshalAndProcessMessage(raw)
			}
		})
		if err != nil {
			x.Fail("invite", "inviting failed: %v", err)
		}
		gr.raws = append(gr.raws, raw)
		w, err := refmls.ParseWelcome(wraw)
		if err != nil {
			x.Fail("welcome-parse", "%v", err)
		}
		for _, sec := range w.Secrets {
			if kems[string(sec.Ct.Kem)] {
				x.Fail("kem-reuse", "two invitations use the same encapsulated key")
			}
			kems[string(sec.Ct.Kem)] = true
		}
		for _, c := range guests {
			var m *mls.Group
			x.Lib("GroupFromWelcome", func() { m, err = mls.GroupFromWelcome(wel, c.KPP) })
			if err != nil {
				x.Fail("join", "GroupFromWelcome: %v", err)
			}
			gr.members = append(gr.members, m)
			rg, err := refmls.Join(w, c.M, &refmls.JoinOpts{Rng: r, Now: unixNow()})
			if err != nil {
				x.Fail("welcome-emission", "a conforming client cannot join: %v", err)
			}
			gr.refs = append(gr.refs, rg)
			for _, sec := range [][]byte{rg.Joiner, rg.EpochSecret, rg.InitSecret} {
				if len(sec) != s.Nh() {
					x.Fail("secret-size", "a secret has %d bytes", len(sec))
				}
			}
		}
		j := string(gr.refs[0].Joiner)
		if joiners[j] {
			x.Fail("shared-secret", "two groups created with the same identifier have the same joiner secret")
		}
		joiners[j] = true
	}
	// all messages of each to all of the others
	for i, a := range grps {
		for k, m := range a.members {
			var raw []byte
			var err error
			data := refmls.Bytes(r, 20)
			x.Lib("CreateApplicationMessage", func() { raw, err = m.CreateApplicationMessage(data) })
			if err != nil {
				x.Fail("send", "%v", err)
			}
			a.raws = append(a.raws, raw)
			for l, o := range a.members {
				if l == k {
					continue
				}
				var out []byte
				x.Lib("receive", func() { out, err = o.UnmarshalAndProcessMessage(raw) })
				x.Eval(1)
				if err != nil || !bytes.Equal(out, data) {
					x.Fail("app-refused", "member %d does not read member %d: %v", l, k, err)
				}
			}
		}
		pub := a.refs[0]
		p, _ := pub.Propose(pRemove(0), &refmls.SealOpts{Public: true})
		c := pub.Commit(&refmls.CommitOpts{Path: true, Seal: refmls.SealOpts{Public: r.Intn(2) == 0}})
		a.raws = append(a.raws, p, c.Raw)
		for j, b := range grps {
			if j == i {
				continue
			}
			for _, o := range b.members {
				for _, raw := range a.raws {
					deaf(x, o, "a member of a parallel group", "a message of another group with the same identifier", raw)
				}
			}
			x.Seen("parallel|%d|%d|%d", s.ID, len(gid), len(guests))
		}
	}
}

// c09Outsider lets clients without the right keys try to join, and newcomers
// read earlier epochs.
func c09Outsider(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, nil)
	watch(w)
	grow(w, 2+r.Intn(6))
	addKinds(w, 2, 1)
	var old [][]byte
	for round := 0; round < 5; round++ {
		for k := 0; k < 3; k++ {
			from := w.Members[r.Intn(len(w.Members))]
			if from.IsLib() {
				old = append(old, w.LibApp(from, w.SmallPayload()))
			} else {
				old = append(old, from.Ref.App(w.SmallPayload(), nil))
			}
		}
		libs := w.Libs()
		by := libs[r.Intn(len(libs))]
		cl, ls := w.NewClients(1 + r.Intn(3))
		inv := w.Prepare(by, cl)
		var raw []byte
		x.Lib("Welcome.Bytes", func() { raw = inv.Welcome.Bytes() })
		rw, err := refmls.ParseWelcome(raw)
		if err != nil {
			x.Fail("welcome-parse", "%v", err)
		}
		// clients that are not invited
		stranger := w.NewClient(true)
		hand := func(m *refmls.Member) *mls.KeyPairPackage { return sim.LibClientFrom(x, m) }
		target := cl[r.Intn(len(cl))].M
		mixes := map[string]*mls.KeyPairPackage{
			"a stranger": stranger.KPP,
			"a stranger with the key package of an invitee": hand(&refmls.Member{S: w.S, KP: target.KP, InitPriv: stranger.M.InitPriv, EncPriv: stranger.M.EncPriv, SigPriv: stranger.M.SigPriv}),
			"an invitee's leaf holder without its init key": hand(&refmls.Member{S: w.S, KP: target.KP, InitPriv: stranger.M.InitPriv, EncPriv: target.EncPriv, SigPriv: target.SigPriv}),
			"a stranger with the identity of an invitee":    hand(refmls.NewMember(w.S, r, &refmls.MemberOpts{Identity: target.KP.Leaf.Cred.Identity})),
			"a member of the group":                         by.C.KPP,
		}
		for name, kpp := range mixes {
			var g *mls.Group
			x.Lib("GroupFromWelcome", func() { g, err = mls.GroupFromWelcome(inv.Welcome, kpp) })
			x.Eval(1)
			if err == nil || g != nil {
				x.Fail("outsider-joins", "%s joins with a Welcome that is not for it", name)
			}
			x.Seen("outsider|%d|%s|%s", w.S.ID, name, w.Shape())
		}
		// the reference as attacker: every key it holds on every entry
		holders := []*refmls.Member{stranger.M}
		for _, m := range w.Members {
			holders = append(holders, m.C.M)
		}
		for _, m := range w.Gone {
			holders = append(holders, m.C.M)
		}
		for _, h := range holders {
			for _, e := range rw.Secrets {
				for _, k := range [][]byte{h.InitPriv, h.EncPriv} {
					if _, err := w.S.DecryptWithLabel(k, "Welcome", rw.EncGroupInfo, e.Ct); err == nil {
						x.Fail("outsider-decrypts", "the secrets for an invitee can be decrypted with a key that is not the invitee's init key")
					}
					x.Eval(1)
				}
			}
		}
		for i, e := range rw.Secrets {
			for j, c := range cl {
				_, err := w.S.DecryptWithLabel(c.M.InitPriv, "Welcome", rw.EncGroupInfo, e.Ct)
				if (err == nil) != (i == j) {
					x.Fail("wrong-recipient", "entry %d of the Welcome: invitee %d decrypting gives %v", i, j, err)
				}
				x.Eval(1)
			}
		}
		scanWelcome(x, w, raw, rw, cl)
		w.Complete(by, inv, ls)
		for _, m := range w.Members[len(w.Members)-len(cl):] {
			for _, o := range append(old, w.Commits...) {
				if m.IsLib() {
					deaf(x, m.Lib, "newcomer "+m.Name, "a message of an earlier epoch", o)
				} else if _, err := m.Ref.Clone().Process(o); err == nil {
					x.Fail("read", "a conforming newcomer reads a message of an earlier epoch")
				}
			}
			x.Seen("newcomer|%d|%s", w.S.ID, w.Shape())
		}
		w.Agree()
		if r.Intn(2) == 0 {
			w.RandomStep(12)
			w.Agree()
		}
		addKinds(w, 2, 1)
	}
}

// scanWelcome looks for secrets and for the group's contents in a Welcome.
func scanWelcome(x *run.Ctx, w *sim.World, raw []byte, rw *refmls.Welcome, cl []*sim.Client) {
	b, err := w.S.DecryptWithLabel(cl[0].M.InitPriv, "Welcome", rw.EncGroupInfo, rw.Secrets[0].Ct)
	if err != nil {
		return
	}
	var gs refmls.GroupSecrets
	rd := &refmls.R{B: b}
	gs.Get(rd)
	if err := rd.End(); err != nil {
		x.Fail("welcome-parse", "group secrets do not parse: %v", err)
	}
	secrets := [][]byte{gs.Joiner, w.Witness().Ref.InitSecret, w.Witness().Ref.EpochSecret}
	for _, c := range cl {
		secrets = append(secrets, c.M.InitPriv, c.M.EncPriv, c.M.SigPriv)
	}
	for _, m := range w.Members {
		secrets = append(secrets, m.C.M.EncPriv, m.C.M.SigPriv, m.C.M.KP.Leaf.SigKey)
	}
	for _, s := range secrets {
		x.Eval(1)
		if len(s) >= 16 && bytes.Contains(raw, s) {
			x.Fail("leak", "a secret or a member's key appears in the clear in a Welcome")
		}
	}
}

// Fresh is what a fresh process prints about the randomness it uses.
type Fresh struct{ Values map[string]string }

// PrintFresh generates keys, a group and messages and prints random values.
func PrintFresh(suite uint16) {
	s := refmls.GetSuite(suite)
	v := map[string]string{}
	put := func(k string, b []byte) { v[k] = hex.EncodeToString(b) }
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	cred := mls.NewBasicCredential([]byte("x"))
	a, err := mls.GenerateKeyPairPackage(mls.CipherSuite(suite), cred)
	must(err)
	b, err := mls.GenerateKeyPairPackage(mls.CipherSuite(suite), cred)
	must(err)
	put("init key", a.Private.InitKey)
	put("encryption key", a.Private.EncryptionKey)
	put("signature key", a.Private.SignatureKey)
	g, err := mls.CreateGroup(mls.GroupID("g"), a)
	must(err)
	wel, raw, err := g.CreateWelcome([]mls.KeyPackage{b.Public})
	must(err)
	rw, err := refmls.ParseWelcome(wel.Bytes())
	must(err)
	put("encapsulated key", rw.Secrets[0].Ct.Kem)
	kp, err := refmls.ParseKeyPackage(b.Public.Bytes())
	must(err)
	ref, err := refmls.Join(rw, &refmls.Member{S: s, KP: *kp, InitPriv: b.Private.InitKey, EncPriv: b.Private.EncryptionKey, SigPriv: b.Private.SignatureKey}, &refmls.JoinOpts{Now: unixNow()})
	must(err)
	put("joiner secret", ref.Joiner)
	_, err = g.UnmarshalAndProcessMessage(raw)
	must(err)
	var guards []byte
	for i := 0; i < 4; i++ {
		m, err := g.CreateApplicationMessage([]byte("hello"))
		must(err)
		e, err := ref.Process(m)
		must(err)
		guards = append(guards, e.Guard...)
	}
	put("nonce guards", guards)
	json.NewEncoder(os.Stdout).Encode(Fresh{v})
}

// c09Process compares the randomness of fresh processes.
func c09Process(x *run.Ctx) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	for i := 0; i < 4; i++ {
		cmd := exec.Command(self, "-fresh", fmt.Sprint(x.P("suite")))
		out, err := cmd.Output()
		if err != nil {
			x.Fail("fresh-process", "a fresh process cannot create a group: %v %s", err, out)
		}
		var f Fresh
		if err := json.Unmarshal(out, &f); err != nil {
			panic(err)
		}
		for k, v := range f.Values {
			if seen[k+v] {
				x.Fail("predictable", "two processes use the same %s", k)
			}
			seen[k+v] = true
			x.Eval(1)
			x.Seen("process|%d|%s", x.P("suite"), k)
		}
	}
}

// c09Entropy creates thousands of groups from the same key package and looks
// for two with the same secrets, and for bytes of secrets and keys that take
// few values.
func c09Entropy(x *run.Ctx) {
	s := refmls.GetSuite(uint16(x.P("suite")))
	cs := mls.CipherSuite(s.ID)
	cred := mls.NewBasicCredential([]byte("x"))
	a := must2(mls.GenerateKeyPairPackage(cs, cred))
	b := must2(mls.GenerateKeyPairPackage(cs, cred))
	kp, err := refmls.ParseKeyPackage(b.Public.Bytes())
	if err != nil {
		x.Fail("kp-parse", "%v", err)
	}
	invitee := &refmls.Member{S: s, KP: *kp, InitPriv: b.Private.InitKey, EncPriv: b.Private.EncryptionKey, SigPriv: b.Private.SignatureKey}
	list := []mls.KeyPackage{b.Public}
	seen := map[string]int{}
	vals := map[string][]map[byte]bool{}
	note := func(i int, what string, v []byte) {
		x.Eval(1)
		if j, ok := seen[what+string(v)]; ok {
			x.Fail("predictable", "the %s of the groups %d and %d made by one member with the same key package are the same", what, j, i)
		}
		seen[what+string(v)] = i
		p := vals[what]
		for k := range v {
			if k >= len(p) {
				p = append(p, map[byte]bool{})
			}
			p[k][v[k]] = true
		}
		vals[what] = p
	}
	n := 1500
	for i := 0; i < n; i++ {
		var wel *mls.Welcome
		x.Lib("CreateGroup and CreateWelcome", func() {
			g, err2 := mls.CreateGroup(mls.GroupID("g"), a)
			if err2 == nil {
				wel, _, err2 = g.CreateWelcome(list)
			}
			err = err2
		})
		if err != nil {
			x.Fail("invite", "%v", err)
		}
		rw, err := refmls.ParseWelcome(wel.Bytes())
		if err != nil {
			x.Fail("welcome-parse", "%v", err)
		}
		pt, err := s.DecryptWithLabel(invitee.InitPriv, "Welcome", rw.EncGroupInfo, rw.Secrets[0].Ct)
		if err != nil {
			x.Fail("welcome-decrypt", "%v", err)
		}
		var gs refmls.GroupSecrets
		gs.Get(&refmls.R{B: pt})
		note(i, "joiner secrets", gs.Joiner)
		note(i, "encapsulated keys", rw.Secrets[0].Ct.Kem[1:])
		if i%4 == 0 {
			k := must2(mls.GenerateKeyPairPackage(cs, cred))
			note(i, "init keys", k.Private.InitKey)
			note(i, "encryption keys", k.Private.EncryptionKey)
			note(i, "signature keys", k.Private.SignatureKey)
		}
	}
	for what, p := range vals {
		for k := range p {
			if len(p[k]) < 16 {
				x.Fail("predictable", "byte %d of %s takes %d values among hundreds", k, what, len(p[k]))
			}
		}
		x.Seen("entropy|%d|%s", s.ID, what)
	}
}
