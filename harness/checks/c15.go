package checks

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C15", Level: "exploration",
		Rule: "distinct (suite, tree shape, list length) invitations whose contents, joins and membership were compared, and (suite, broken rule, position in the list) lists that were refused",
		Assumptions: []string{
			"required_capabilities and credential validation are not covered",
		},
		MinEvals: 2000, MinSeen: 250,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("invite", scale(tier, 96, 400), seed, nil)...)
			n := (len(packageRules()) + 7) / 8
			for chunk := 0; chunk < n; chunk++ {
				out = append(out, casesOf("refuse", scale(tier, 24, 96), seed, map[string]int64{"chunk": int64(chunk)})...)
			}
			out = append(out, casesOf("odd", scale(tier, 8, 40), seed, nil)...)
			out = append(out, casesOf("long", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("crowd", scale(tier, 4, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "crowd" {
				crowdInvite(x)
				return
			}
			switch x.Case.Kind {
			case "invite":
				c15Invite(x)
			case "refuse":
				c15Refuse(x)
			case "odd":
				c15Odd(x)
			case "long":
				c15Long(x)
			}
		},
	})
}

// admits lets m invite cl and judges the invitation. strangers must not be
// able to join.
func admits(w *sim.World, m *sim.Member, cl []*sim.Client, libs []bool, strangers []*sim.Client) {
	x := w.X
	wit := w.Witness()
	before := wit.Ref.Tree.Clone()
	inv := w.Prepare(m, cl)
	refs := make([][]byte, len(cl))
	for i, c := range cl {
		refs[i] = w.S.KPRef(&c.M.KP)
	}
	listed := func(wel *mls.Welcome, how string) {
		var got []mls.KeyPackageRef
		x.Lib("NewMembers", func() { got = wel.NewMembers() })
		x.Eval(1)
		if len(got) != len(refs) {
			x.Fail("listed", "%s for %d key packages lists %d new members", how, len(refs), len(got))
		}
		for i := range refs {
			if !bytes.Equal(got[i], refs[i]) {
				x.Fail("listed", "%s: new member %d of %d is not key package %d", how, i, len(refs), i)
			}
		}
	}
	listed(inv.Welcome, "invitation")
	var raw []byte
	x.Lib("Welcome.Bytes", func() { raw = inv.Welcome.Bytes() })
	wel, err := refmls.ParseWelcome(raw)
	if err != nil {
		x.Fail("welcome-parse", "welcome does not parse: %v", err)
	}
	var dec *mls.Welcome
	x.Lib("UnmarshalWelcome", func() { dec, err = mls.UnmarshalWelcome(raw) })
	if err != nil {
		x.Fail("decode", "the library does not read its welcome: %v", err)
	}
	listed(dec, "decoded invitation")
	if len(wel.Secrets) != len(cl) {
		x.Fail("welcome-meaning", "welcome for %d key packages has %d entries", len(cl), len(wel.Secrets))
	}
	for i, c := range cl {
		// each entry is readable with one init key only
		for j := range wel.Secrets {
			_, err := w.S.DecryptWithLabel(c.M.InitPriv, "Welcome", wel.EncGroupInfo, wel.Secrets[j].Ct)
			x.Eval(1)
			if (err == nil) != (i == j) {
				x.Fail("welcome-meaning", "entry %d of the welcome and the init key of key package %d: %v", j, i, err)
			}
			if len(cl) > 12 && j > i+2 {
				break
			}
		}
	}
	for _, s := range strangers {
		for j := range wel.Secrets {
			if _, err := w.S.DecryptWithLabel(s.M.InitPriv, "Welcome", wel.EncGroupInfo, wel.Secrets[j].Ct); err == nil && !shares(s, cl[j]) {
				x.Fail("stranger", "entry %d of the welcome is readable by %s", j, s.Name)
			}
		}
		x.Eval(1)
		for _, ww := range []*mls.Welcome{inv.Welcome, dec} {
			var g *mls.Group
			x.Lib("GroupFromWelcome", func() { g, err = mls.GroupFromWelcome(ww, s.KPP) })
			if err == nil || g != nil {
				x.Fail("stranger", "%s, who was not invited, joins (err %v)", s.Name, err)
			}
		}
	}
	old := len(w.Members)
	w.Complete(m, inv, libs)
	after := w.Witness().Ref.Tree
	// existing members keep their places, the others are the invited ones
	want := map[string]int{}
	for _, c := range cl {
		var wr refmls.W
		c.M.KP.Leaf.Put(&wr)
		want[string(wr.B)]++
	}
	for li := uint32(0); li < after.NumLeaves(); li++ {
		a := after.Leaf(li)
		var b *refmls.LeafNode
		if li < before.NumLeaves() {
			b = before.Leaf(li)
		}
		x.Eval(1)
		if b != nil {
			if a == nil || !bytes.Equal(leafBytes(a), leafBytes(b)) {
				x.Fail("moved", "leaf %d changed when %d members were invited", li, len(cl))
			}
			continue
		}
		if a == nil {
			continue
		}
		k := string(leafBytes(a))
		if want[k] == 0 {
			x.Fail("uninvited", "leaf %d holds somebody who was not invited", li)
		}
		want[k]--
	}
	for _, n := range want {
		if n != 0 {
			x.Fail("missing", "an invited member is not in the tree")
		}
	}
	if len(w.Members) != old+len(cl) {
		panic("bookkeeping")
	}
	if len(w.Members) <= 8 {
		w.AgreeAll()
	} else {
		w.Agree()
	}
	// the invitation is over
	for _, s := range strangers {
		var g *mls.Group
		x.Lib("GroupFromWelcome", func() { g, err = mls.GroupFromWelcome(dec, s.KPP) })
		if err == nil || g != nil {
			x.Fail("stranger", "%s, who was not invited, joins later", s.Name)
		}
	}
}

func leafBytes(l *refmls.LeafNode) []byte {
	var w refmls.W
	l.Put(&w)
	return w.B
}

func shares(s, c *sim.Client) bool { return bytes.Equal(s.M.InitPriv, c.M.InitPriv) }

// strangers are clients that resemble those of cl, without being invited.
func strangers(w *sim.World, cl []*sim.Client) []*sim.Client {
	r := w.R
	lib := func(name string, m *refmls.Member) *sim.Client {
		return &sim.Client{M: m, KPP: sim.LibClientFrom(w.X, m), Name: name}
	}
	c := cl[r.Intn(len(cl))]
	out := []*sim.Client{
		// another key package of the same client
		lib("second key package", refmls.NewMember(w.S, r, &refmls.MemberOpts{Cred: &c.M.KP.Leaf.Cred, Caps: &c.M.KP.Leaf.Caps,
			SigPub: c.M.KP.Leaf.SigKey, SigPriv: c.M.SigPriv})),
		// the same leaf, other init key
		lib("same leaf", refmls.NewMember(w.S, r, &refmls.MemberOpts{Cred: &c.M.KP.Leaf.Cred, SigPub: c.M.KP.Leaf.SigKey, SigPriv: c.M.SigPriv,
			EncPub: c.M.KP.Leaf.EncKey, EncPriv: c.M.EncPriv, LeafPost: func(l *refmls.LeafNode) { *l = *c.M.KP.Leaf.Clone() }})),
		// the same identity
		lib("namesake", refmls.NewMember(w.S, r, &refmls.MemberOpts{Cred: &c.M.KP.Leaf.Cred, Caps: &c.M.KP.Leaf.Caps})),
		// the same keys in another key package
		lib("same keys", refmls.NewMember(w.S, r, &refmls.MemberOpts{Identity: []byte("other"), SigPub: c.M.KP.Leaf.SigKey, SigPriv: c.M.SigPriv,
			EncPub: c.M.KP.Leaf.EncKey, EncPriv: c.M.EncPriv, InitPub: c.M.KP.InitKey, InitPriv: c.M.InitPriv})),
		// the same leaf and keys in another key package
		lib("other key package of the leaf", refmls.NewMember(w.S, r, &refmls.MemberOpts{Cred: &c.M.KP.Leaf.Cred, SigPub: c.M.KP.Leaf.SigKey, SigPriv: c.M.SigPriv,
			EncPub: c.M.KP.Leaf.EncKey, EncPriv: c.M.EncPriv, InitPub: c.M.KP.InitKey, InitPriv: c.M.InitPriv,
			KPExts:   append([]refmls.Extension{{Type: 0xa0a1, Data: []byte{1}}}, c.M.KP.Exts...),
			LeafPost: func(l *refmls.LeafNode) { *l = *c.M.KP.Leaf.Clone() }})),
		// the invited key package without its init key
		func() *sim.Client {
			m := *c.M
			_, m.InitPriv = w.S.GenKEM(r)
			s := lib("thief of a key package", &m)
			return s
		}(),
		func() *sim.Client {
			m := *c.M
			m.InitPriv = m.EncPriv
			return lib("holder of the leaf key only", &m)
		}(),
	}
	if len(cl) > 1 {
		// the key package of one with the private keys of the other
		m := *c.M
		o := cl[r.Intn(len(cl))]
		if o != c {
			m.InitPriv = o.M.InitPriv
			s := lib("other invited client", &m)
			out = append(out, s)
		}
	}
	// those who are members already
	for i := 0; i < 2; i++ {
		if o := w.Members[r.Intn(len(w.Members))]; o.C != nil && o.C.KPP != nil {
			out = append(out, o.C)
		}
	}
	for _, g := range w.Gone {
		if g.C != nil && g.C.KPP != nil && r.Intn(2) == 0 {
			out = append(out, g.C)
		}
	}
	return out
}

func c15Invite(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, func(c *sim.Cfg) { c.LibRatio = 6 })
	if len(w.Libs()) == 0 {
		addKinds(w, 1, 1)
	}
	for round := 0; round < 5; round++ {
		for i := r.Intn(4); i > 0; i-- {
			w.RandomStep(9)
		}
		libs := w.Libs()
		m := libs[r.Intn(len(libs))]
		n := 1
		switch r.Intn(4) {
		case 0:
			n = 1 + r.Intn(3)
		case 1:
			n = 1 + r.Intn(9)
		}
		cl, ls := w.NewClients(n)
		if r.Intn(4) == 0 {
			// proposals of others are around; the invitation is only about
			// the listed key packages
			by := w.Refs()[0]
			if r.Intn(2) == 0 {
				w.Propose(by, pAdd(w.NewClient(false).M), &refmls.SealOpts{})
			} else {
				w.Propose(by, pUpdate(by.Ref.NewUpdateLeaf(nil, nil, nil)), &refmls.SealOpts{})
			}
		}
		if r.Intn(3) == 0 {
			// an invitation nobody gets
			cl2, _ := w.NewClients(1 + r.Intn(2))
			w.Prepare(m, cl2)
			if r.Intn(2) == 0 {
				w.Prepare(m, cl)
			}
		}
		shape := w.Shape()
		admits(w, m, cl, ls, strangers(w, cl))
		x.Seen("invite|%d|%s|%d", w.S.ID, shape, n)
	}
}

// c15Long invites many at once.
func c15Long(x *run.Ctx) {
	w := newWorld(x, func(c *sim.Cfg) { c.LibFound, c.Variety, c.X509, c.LibRatio = true, false, false, 1 })
	addKinds(w, 1, 1)
	for _, n := range []int{14 + x.Rng.Intn(3), 30 + x.Rng.Intn(6)} {
		cl, ls := w.NewClients(n)
		libs := w.Libs()
		admits(w, libs[x.Rng.Intn(len(libs))], cl, ls, strangers(w, cl))
		x.Seen("long|%d|%d", w.S.ID, n)
	}
}

// packageRule makes a list of key packages of which one must not be invited.
type packageRule struct {
	name string
	// f returns one key package, or two that exclude each other
	f func(d *den) []*refmls.Member
}

func packageRules() []packageRule {
	var out []packageRule
	add := func(name string, f func(d *den) *refmls.MemberOpts) {
		out = append(out, packageRule{name, func(d *den) []*refmls.Member {
			o := f(d)
			if o == nil {
				return nil
			}
			if o.Identity == nil {
				o.Identity = []byte("bad")
			}
			return []*refmls.Member{refmls.NewMember(d.S, d.R, d.dress(o))}
		}})
	}
	pair := func(name string, f func(d *den, m *refmls.Member) *refmls.MemberOpts) {
		out = append(out, packageRule{name, func(d *den) []*refmls.Member {
			m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("first of two")})
			o := f(d, m)
			if o == nil {
				return []*refmls.Member{m, m}
			}
			o.Identity = []byte("second of two")
			return []*refmls.Member{m, refmls.NewMember(d.S, d.R, o)}
		}})
	}
	kpPre := func(name string, f func(d *den, k *refmls.KeyPackage)) {
		add(name, func(d *den) *refmls.MemberOpts {
			return &refmls.MemberOpts{KPPre: func(k *refmls.KeyPackage) { f(d, k) }}
		})
	}
	kpPost := func(name string, f func(d *den, k *refmls.KeyPackage)) {
		add(name, func(d *den) *refmls.MemberOpts {
			return &refmls.MemberOpts{KPPost: func(k *refmls.KeyPackage) { f(d, k) }}
		})
	}
	leafPre := func(name string, f func(d *den, l *refmls.LeafNode)) {
		add(name, func(d *den) *refmls.MemberOpts {
			return &refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { f(d, l) }}
		})
	}
	leafPost := func(name string, f func(d *den, l *refmls.LeafNode)) {
		add(name, func(d *den) *refmls.MemberOpts {
			return &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { f(d, l) }}
		})
	}
	otherSuite := func(d *den) *refmls.Suite {
		for {
			if s := refmls.GetSuite(refmls.Supported[d.R.Intn(len(refmls.Supported))]); s.ID != d.S.ID {
				return s
			}
		}
	}

	// suites
	kpPre("suite-field", func(d *den, k *refmls.KeyPackage) { k.Suite = otherSuite(d).ID })
	kpPre("suite-unknown", func(d *den, k *refmls.KeyPackage) { k.Suite = []uint16{0, 8, 0x4242, 0xffff}[d.R.Intn(4)] })
	kpPre("suite-unsupported", func(d *den, k *refmls.KeyPackage) { k.Suite = []uint16{4, 5, 6}[d.R.Intn(3)] })
	out = append(out, packageRule{"suite-genuine", func(d *den) []*refmls.Member {
		return []*refmls.Member{refmls.NewMember(otherSuite(d), d.R, &refmls.MemberOpts{Identity: []byte("elsewhere")})}
	}})
	out = append(out, packageRule{"suite-sibling", func(d *den) []*refmls.Member {
		// suites 1 and 3 have the same key formats
		id := uint16(3)
		if d.S.ID == 3 {
			id = 1
		} else if d.S.ID != 1 {
			return nil
		}
		return []*refmls.Member{refmls.NewMember(refmls.GetSuite(id), d.R, &refmls.MemberOpts{Identity: []byte("elsewhere")})}
	}})

	// signatures
	kpPost("kp-signature-flipped", func(d *den, k *refmls.KeyPackage) { k.Sig = flip(k.Sig, d.R.Intn(len(k.Sig))) })
	kpPost("kp-signature-empty", func(d *den, k *refmls.KeyPackage) { k.Sig = []byte{} })
	kpPost("kp-signature-of-leaf", func(d *den, k *refmls.KeyPackage) { k.Sig = k.Leaf.Sig })
	kpPost("kp-init-key-replaced", func(d *den, k *refmls.KeyPackage) { k.InitKey, _ = d.S.GenKEM(d.R) })
	kpPost("kp-extension-added", func(d *den, k *refmls.KeyPackage) {
		k.Exts = append(k.Exts, refmls.Extension{Type: 0xa0a0, Data: []byte{1}})
	})
	add("kp-signed-by-other", func(d *den) *refmls.MemberOpts {
		_, priv := d.S.GenSig(d.R)
		return &refmls.MemberOpts{KPSigKey: priv}
	})
	leafPost("leaf-signature-flipped", func(d *den, l *refmls.LeafNode) { l.Sig = flip(l.Sig, d.R.Intn(len(l.Sig))) })
	leafPost("leaf-signature-empty", func(d *den, l *refmls.LeafNode) { l.Sig = []byte{} })
	leafPost("leaf-identity-replaced", func(d *den, l *refmls.LeafNode) { l.Cred.Identity = []byte("victim") })
	leafPost("leaf-key-replaced", func(d *den, l *refmls.LeafNode) { l.EncKey, _ = d.S.GenKEM(d.R) })
	leafPost("leaf-lifetime-extended", func(d *den, l *refmls.LeafNode) { l.NotAfter += 365 * day })
	add("leaf-signed-by-other", func(d *den) *refmls.MemberOpts {
		_, priv := d.S.GenSig(d.R)
		return &refmls.MemberOpts{LeafSigKey: priv}
	})

	// lifetime
	for _, bl := range badLife {
		leafPre("lifetime-"+bl.name, func(d *den, l *refmls.LeafNode) { l.NotBefore, l.NotAfter = bl.f(unixNow()) })
	}
	leafPre("lifetime-zero", func(d *den, l *refmls.LeafNode) { l.NotBefore, l.NotAfter = 0, 0 })

	// leaf contents
	leafPre("source-update", func(d *den, l *refmls.LeafNode) { l.Source = refmls.SrcUpdate })
	add("source-update-here", func(d *den) *refmls.MemberOpts {
		t := d.evil.Ref.Tree.Clone()
		at := t.Add(&refmls.LeafNode{})
		return &refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source = refmls.SrcUpdate }, LeafTBSGID: d.evil.Ref.Ctx.GroupID, LeafTBSIdx: at}
	})
	add("source-commit-here", func(d *den) *refmls.MemberOpts {
		t := d.evil.Ref.Tree.Clone()
		at := t.Add(&refmls.LeafNode{})
		return &refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source, l.ParentHash = refmls.SrcCommit, []byte{} }, LeafTBSGID: d.evil.Ref.Ctx.GroupID, LeafTBSIdx: at}
	})
	leafPre("source-commit", func(d *den, l *refmls.LeafNode) { l.Source, l.ParentHash = refmls.SrcCommit, []byte{} })
	add("extension-unlisted", func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{LeafExts: []refmls.Extension{{Type: 0xabcd, Data: []byte{1}}}}
	})
	for i := 0; i < 4; i++ {
		add(fmt.Sprintf("extension-any-%d", i), (*den).badExtsOpts)
		add(fmt.Sprintf("signature-key-malformed-%d", i), (*den).badSigKeyOpts)
	}
	add("credential-unsupported", func(d *den) *refmls.MemberOpts {
		caps := refmls.DefaultCaps(d.S)
		caps.Credentials = []uint16{1, 2}
		return &refmls.MemberOpts{Cred: &refmls.Credential{Type: 2, Certs: [][]byte{{1, 2, 3}}}, Caps: &caps}
	})
	add("credentials-missing", func(d *den) *refmls.MemberOpts {
		caps := refmls.DefaultCaps(d.S)
		caps.Credentials = []uint16{2}
		return &refmls.MemberOpts{Caps: &caps}
	})

	// keys
	add("init-equals-encryption", func(d *den) *refmls.MemberOpts {
		pub, priv := d.S.GenKEM(d.R)
		return &refmls.MemberOpts{EncPub: pub, EncPriv: priv, InitPub: pub, InitPriv: priv}
	})
	kpPre("init-key-malformed", func(d *den, k *refmls.KeyPackage) {
		k.InitKey = [][]byte{{}, {4}, refmls.Bytes(d.R, len(k.InitKey)+1), k.InitKey[:len(k.InitKey)-1]}[d.R.Intn(4)]
	})
	add("member-encryption-key", func(d *den) *refmls.MemberOpts {
		ms := d.evil.Ref.Tree.Members()
		return &refmls.MemberOpts{EncPub: d.evil.Ref.Tree.Leaf(ms[d.R.Intn(len(ms))]).EncKey, EncPriv: []byte{1}}
	})
	add("parent-encryption-key", func(d *den) *refmls.MemberOpts {
		for _, i := range d.R.Perm(len(d.evil.Ref.Tree)) {
			if n := d.evil.Ref.Tree[i]; n != nil && n.Parent != nil {
				return &refmls.MemberOpts{EncPub: n.Parent.EncKey, EncPriv: []byte{1}}
			}
		}
		return nil
	})
	add("member-signature-key", func(d *den) *refmls.MemberOpts {
		by := []*sim.Member{d.evil, d.peer, d.third}[d.R.Intn(3)]
		return &refmls.MemberOpts{SigPub: by.Ref.Tree.Leaf(by.Ref.MyLeaf).SigKey, SigPriv: by.Ref.SigPriv}
	})
	out = append(out, packageRule{"member-again", func(d *den) []*refmls.Member {
		// a member that has not changed its leaf since it joined
		ms := d.Libs()
		return []*refmls.Member{ms[d.R.Intn(len(ms))].C.M}
	}})
	pair("twice", func(d *den, m *refmls.Member) *refmls.MemberOpts { return nil })
	pair("same-signature-key", func(d *den, m *refmls.Member) *refmls.MemberOpts {
		return &refmls.MemberOpts{SigPub: m.KP.Leaf.SigKey, SigPriv: m.SigPriv}
	})
	pair("same-encryption-key", func(d *den, m *refmls.Member) *refmls.MemberOpts {
		return &refmls.MemberOpts{EncPub: m.KP.Leaf.EncKey, EncPriv: m.EncPriv}
	})
	pair("same-leaf", func(d *den, m *refmls.Member) *refmls.MemberOpts {
		return &refmls.MemberOpts{EncPub: m.KP.Leaf.EncKey, EncPriv: m.EncPriv, SigPub: m.KP.Leaf.SigKey, SigPriv: m.SigPriv,
			LeafPost: func(l *refmls.LeafNode) { *l = *m.KP.Leaf.Clone() }}
	})
	return out
}

func c15Refuse(x *run.Ctx) {
	r := x.Rng
	d := newDen(x, nil)
	rules := packageRules()
	lo := x.P("chunk") * 8
	rules = rules[lo:min(lo+8, len(rules))]
	for _, ru := range rules {
		bad := ru.f(d)
		if bad == nil {
			x.Stat("inapplicable", 1)
			continue
		}
		// some good ones around
		var list []*refmls.Member
		var good []*sim.Client
		n := r.Intn(4)
		if r.Intn(5) == 0 {
			n = 4 + r.Intn(20)
		}
		for ; n > 0; n-- {
			c := d.NewClient(true)
			good = append(good, c)
			list = append(list, c.M)
		}
		for _, b := range bad {
			p := r.Intn(len(list) + 1)
			list = append(list[:p:p], append([]*refmls.Member{b}, list[p:]...)...)
		}
		// conforming members would not accept the result
		var props []refmls.ProposalOrRef
		for _, m := range list {
			props = append(props, val(pAdd(m)))
		}
		if ru.name != "init-key-malformed" && ru.name != "suite-genuine" {
			res := d.commit(props, false, refmls.Hooks{})
			if _, err := d.peer.Ref.Clone().Process(res.Raw); err == nil {
				panic("rule " + ru.name + " is not hostile: the reference accepts it")
			}
		}
		by := d.near
		if r.Intn(2) == 0 {
			by = d.far
		}
		kps := make([]mls.KeyPackage, len(list))
		for i, m := range list {
			kp, err := mls.UnmarshalKeyPackage(m.KP.MsgBytes())
			if err != nil {
				kps = nil
				break
			}
			kps[i] = *kp
		}
		if kps == nil {
			x.Stat("undecodable", 1)
			continue
		}
		var wel *mls.Welcome
		var raw []byte
		var err error
		x.Lib("CreateWelcome", func() { wel, raw, err = by.Lib.CreateWelcome(kps) })
		x.Eval(1)
		x.Why(ru.name, err)
		if err == nil {
			x.Fail("invited:"+ru.name, "CreateWelcome accepts a list of %d key packages with an unacceptable one: %s (suite %d)", len(list), ru.name, d.S.ID)
		}
		if wel != nil || raw != nil {
			x.Fail("invited-and-error", "CreateWelcome returns an error and an invitation: %s", ru.name)
		}
		pos := "only"
		if len(list) > 1 {
			pos = "middle"
			if list[0] == bad[0] {
				pos = "first"
			} else if list[len(list)-1] == bad[0] {
				pos = "last"
			}
		}
		x.Seen("refuse|%d|%s|%s", d.S.ID, ru.name, pos)
		// the good ones can still be invited
		if len(good) > 0 && len(d.Members) < 24 && r.Intn(3) == 0 {
			d.Invite(by, good, make([]bool, len(good)))
			d.Agree()
		} else {
			d.Say(by, d.SmallPayload(), nil, []*sim.Member{d.peer})
		}
	}
}
