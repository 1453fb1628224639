package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C16", Level: "exploration",
		Rule: "distinct (suite, identity length, shape of the private keys) generated packages that were fully verified, and (suite, altered field) references compared",
		Assumptions: []string{
			"freshness is judged by comparing all generated values and the spread of every byte position, not by measuring entropy",
		},
		MinEvals: 20000, MinSeen: 150,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("generate", scale(tier, 128, 512), seed, nil)...)
			out = append(out, casesOf("scalars", scale(tier, 48, 192), seed, nil)...)
			out = append(out, casesOf("reference", scale(tier, 64, 256), seed, nil)...)
			out = append(out, casesOf("process", 4, seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			switch x.Case.Kind {
			case "generate":
				c16Generate(x)
			case "scalars":
				c16Scalars(x)
			case "reference":
				c16Reference(x)
			case "process":
				c16Process(x)
			}
		},
	})
}

// keyBook remembers all keys ever seen.
type keyBook struct{ seen map[string]string }

func (b *keyBook) note(x *run.Ctx, what string, k []byte) {
	if b.seen == nil {
		b.seen = map[string]string{}
	}
	x.Eval(1)
	if len(k) < 16 {
		x.Fail("short-key", "%s has %d bytes", what, len(k))
	}
	if o, ok := b.seen[string(k)]; ok {
		x.Fail("repeated-key", "%s was used before as %s", what, o)
	}
	b.seen[string(k)] = what
}

// genuine judges one generated key package completely.
func genuine(x *run.Ctx, s *refmls.Suite, id []byte, kpp *mls.KeyPairPackage) *refmls.Member {
	m := sim.MirrorOf(x, s, kpp)
	now := unixNow() + 2
	kp := &m.KP
	x.Eval(1)
	if kp.Version != 1 || kp.Suite != s.ID {
		x.Fail("suite", "generated key package has version %d and suite %d", kp.Version, kp.Suite)
	}
	if err := refmls.VerifyKeyPackage(s, kp, now); err != nil {
		x.Fail("invalid", "generated key package does not verify: %v", err)
	}
	l := &kp.Leaf
	if l.Cred.Type != refmls.CredBasic || !bytes.Equal(l.Cred.Identity, id) {
		x.Fail("credential", "generated key package has another credential (identity of %d bytes)", len(id))
	}
	if l.Source != refmls.SrcKeyPackage || l.NotBefore > now || l.NotAfter < now || l.NotAfter <= l.NotBefore {
		x.Fail("lifetime", "leaf source %d, lifetime from %d to %d, now %d", l.Source, l.NotBefore, l.NotAfter, now)
	}
	has := func(list []uint16, v uint16) bool {
		for _, e := range list {
			if e == v {
				return true
			}
		}
		return false
	}
	if !has(l.Caps.Versions, 1) || !has(l.Caps.Suites, s.ID) || !has(l.Caps.Credentials, refmls.CredBasic) {
		x.Fail("capabilities", "capabilities do not list the version, suite or credential type in use: %+v", l.Caps)
	}
	// private halves
	if pub, err := s.KEMPub(m.InitPriv); err != nil || !bytes.Equal(pub, kp.InitKey) {
		x.Fail("init-private", "the private init key does not match (%x)", m.InitPriv)
	}
	if pub, err := s.KEMPub(m.EncPriv); err != nil || !bytes.Equal(pub, l.EncKey) {
		x.Fail("enc-private", "the private encryption key does not match (%x)", m.EncPriv)
	}
	if pub, err := s.SigPub(m.SigPriv); err != nil || !bytes.Equal(pub, l.SigKey) {
		x.Fail("sig-private", "the private signature key does not match (%x)", m.SigPriv)
	}
	ref(x, s, &kpp.Public, kp)
	return m
}

// ref judges the reference of a key package.
func ref(x *run.Ctx, s *refmls.Suite, pub *mls.KeyPackage, kp *refmls.KeyPackage) mls.KeyPackageRef {
	var r1, r2, r3 mls.KeyPackageRef
	var err error
	var raw []byte
	x.Lib("GenerateRef", func() {
		r1, err = pub.GenerateRef()
		if err != nil {
			return
		}
		raw = pub.Bytes()
		if r2, err = pub.GenerateRef(); err != nil {
			return
		}
		var dec *mls.KeyPackage
		if dec, err = mls.UnmarshalKeyPackage(raw); err != nil {
			return
		}
		if r3, err = dec.GenerateRef(); err == nil && !bytes.Equal(dec.Bytes(), raw) {
			err = fmt.Errorf("encoding changes when decoded")
		}
	})
	x.Eval(1)
	if err != nil {
		x.Fail("reference-error", "reference of a valid key package: %v", err)
	}
	if want := s.KPRef(kp); !bytes.Equal(r1, want) {
		x.Fail("reference", "reference is %x, RFC 9420 says %x", []byte(r1), want)
	}
	if !r1.Equal(r2) || !r2.Equal(r3) || !r3.Equal(r1) || !bytes.Equal(r1, r3) || !bytes.Equal(r1, r2) {
		x.Fail("reference-unstable", "references of the same key package differ")
	}
	return r1
}

func c16Generate(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	cs := mls.CipherSuite(s.ID)
	if !cs.Supported() {
		x.Fail("supported", "suite %d is not supported", s.ID)
	}
	var book keyBook
	refs := map[string]bool{}
	lens := []int{0, 1, 2, 31, 32, 62, 63, 64, 65, 127, 255, 256, 1000, 16382, 16383, 16384, 16385, 70000}
	var cred *mls.Credential
	var id []byte
	n := 60
	if s.ID == 7 {
		n = 30
	}
	spread := map[string]map[int]map[byte]bool{}
	for i := 0; i < n; i++ {
		if i%3 == 0 { // the others share the credential
			id = refmls.Bytes(r, lens[r.Intn(len(lens))])
			cred = mls.NewBasicCredential(append([]byte(nil), id...))
		}
		var kpp *mls.KeyPairPackage
		var err error
		x.Lib("GenerateKeyPairPackage", func() { kpp, err = mls.GenerateKeyPairPackage(cs, cred) })
		if err != nil {
			x.Fail("generate", "GenerateKeyPairPackage: %v", err)
		}
		m := genuine(x, s, id, kpp)
		for _, k := range []struct {
			n string
			b []byte
		}{{"private init key", m.InitPriv}, {"private encryption key", m.EncPriv}, {"private signature key", m.SigPriv},
			{"init key", m.KP.InitKey}, {"encryption key", m.KP.Leaf.EncKey}, {"signature key", m.KP.Leaf.SigKey}} {
			book.note(x, fmt.Sprintf("%s of package %d", k.n, i), k.b)
			if k.n[:3] == "pri" {
				if spread[k.n] == nil {
					spread[k.n] = map[int]map[byte]bool{}
				}
				for p := range k.b {
					q := len(k.b) - 1 - p
					if spread[k.n][p] == nil {
						spread[k.n][p] = map[byte]bool{}
					}
					spread[k.n][p][k.b[q]] = true
				}
			}
		}
		if ref := string(s.KPRef(&m.KP)); refs[ref] {
			x.Fail("reference-equal", "two generated packages have the same reference")
		} else {
			refs[ref] = true
		}
		x.Seen("generate|%d|%d|%d,%d,%d", s.ID, len(id), len(m.InitPriv), len(m.EncPriv), len(m.SigPriv))
		if i%20 == 0 {
			usable(x, s, kpp, m)
		}
	}
	// no byte of a private key stays the same
	for k, ps := range spread {
		for p, vs := range ps {
			if len(ps[0]) > 0 && len(vs) < 4 && p < 31 {
				x.Fail("constant-byte", "byte %d from the end of the %s takes only %d values in %d packages", p, k, len(vs), n)
			}
		}
	}
}

// usable creates a group with a key pair package and joins one.
func usable(x *run.Ctx, s *refmls.Suite, kpp *mls.KeyPairPackage, m *refmls.Member) {
	r := x.Rng
	var g *mls.Group
	var err error
	x.Lib("CreateGroup", func() { g, err = mls.CreateGroup(mls.GroupID("usable"), kpp) })
	if err != nil {
		x.Fail("create", "CreateGroup with a generated package: %v", err)
	}
	guest := refmls.NewMember(s, r, nil)
	var wel *mls.Welcome
	x.Lib("CreateWelcome", func() {
		wel, _, err = g.CreateWelcome([]mls.KeyPackage{sim.LibClientFrom(x, guest).Public})
	})
	if err != nil {
		x.Fail("invite", "CreateWelcome: %v", err)
	}
	rw, err := refmls.ParseWelcome(wel.Bytes())
	if err == nil {
		_, err = refmls.Join(rw, guest, &refmls.JoinOpts{Rng: r, Now: unixNow()})
	}
	x.Eval(1)
	if err != nil {
		x.Fail("usable", "a conforming client cannot join the group of the package's holder: %v", err)
	}
	// join another group and talk there
	host := refmls.NewMember(s, r, nil)
	rg := refmls.Create([]byte("other"), host, 0, nil, r)
	res := rg.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{val(pAdd(m))}, Path: true})
	rg = res.Next
	rg.Now = unixNow()
	var out []byte
	x.Lib("joining", func() {
		var lw *mls.Welcome
		if lw, err = mls.UnmarshalWelcome(res.Welcome.MsgBytes()); err != nil {
			return
		}
		if g, err = mls.GroupFromWelcome(lw, kpp); err != nil {
			return
		}
		out, err = g.CreateApplicationMessage([]byte("hello"))
	})
	if err != nil {
		x.Fail("join", "the holder cannot join: %v", err)
	}
	ev, err := rg.Process(out)
	x.Eval(1)
	if err != nil || string(ev.App) != "hello" {
		x.Fail("usable", "a conforming member does not accept the holder's message: %v", err)
	}
	// a commit with a path has to be decrypted with the leaf key
	res = rg.Commit(&refmls.CommitOpts{Path: true})
	x.Lib("processing", func() { _, err = g.UnmarshalAndProcessMessage(res.Raw) })
	x.Eval(1)
	if err != nil {
		x.Fail("usable", "the holder does not process a commit with a path: %v", err)
	}
}

// c16Scalars looks at many packages for private keys with leading zero bytes,
// and uses those.
func c16Scalars(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	cs := mls.CipherSuite(s.ID)
	n := map[uint16]int{1: 300, 2: 500, 3: 300, 7: 60}[s.ID]
	cred := mls.NewBasicCredential([]byte("scalars"))
	var book keyBook
	size := map[uint16]int{1: 32, 2: 32, 3: 32, 7: 48}[s.ID]
	zero := func(b []byte) bool { return len(b) < size || b[0] == 0 }
	used := 0
	for i := 0; i < n; i++ {
		var kpp *mls.KeyPairPackage
		var err error
		x.Lib("GenerateKeyPairPackage", func() { kpp, err = mls.GenerateKeyPairPackage(cs, cred) })
		if err != nil {
			x.Fail("generate", "GenerateKeyPairPackage: %v", err)
		}
		x.Eval(1)
		p := kpp.Private
		book.note(x, fmt.Sprintf("private init key %d", i), p.InitKey)
		book.note(x, fmt.Sprintf("private encryption key %d", i), p.EncryptionKey)
		book.note(x, fmt.Sprintf("private signature key %d", i), p.SignatureKey)
		if zero(p.InitKey) || zero(p.EncryptionKey) || zero(p.SignatureKey) {
			usable(x, s, kpp, genuine(x, s, []byte("scalars"), kpp))
			used++
			x.Seen("scalars|%d|%v%v%v", s.ID, zero(p.InitKey), zero(p.EncryptionKey), zero(p.SignatureKey))
		}
	}
	x.Stat("leading-zero packages", used)
	// made to order, in both representations of a short scalar
	find := func(gen func() (pub, priv []byte)) (pub, priv []byte) {
		for {
			pub, priv = gen()
			if zero(priv) {
				return
			}
		}
	}
	for i := 0; i < 3; i++ {
		o := &refmls.MemberOpts{Identity: []byte("scalars")}
		if i != 1 {
			o.SigPub, o.SigPriv = find(func() ([]byte, []byte) { return s.GenSig(r) })
		}
		if i != 0 {
			o.EncPub, o.EncPriv = find(func() ([]byte, []byte) { return s.GenKEM(r) })
			o.InitPub, o.InitPriv = find(func() ([]byte, []byte) { return s.GenKEM(r) })
		}
		m := refmls.NewMember(s, r, o)
		if i == 2 && (s.ID == 2 || s.ID == 7) {
			m.SigPriv = bytes.TrimLeft(m.SigPriv, "\x00")
		}
		usable(x, s, sim.LibClientFrom(x, m), m)
		x.Seen("ordered|%d|%d", s.ID, i)
	}
}

// c16Reference compares references of packages that differ in one field.
func c16Reference(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(uint16(x.P("suite")))
	m := refmls.NewMember(s, r, &refmls.MemberOpts{Identity: refmls.Bytes(r, 1+r.Intn(80)),
		LeafExts: []refmls.Extension{{Type: 0xa001, Data: []byte{1, 2}}},
		KPExts:   []refmls.Extension{{Type: 0xa002, Data: []byte{3}}},
		LeafPre:  func(l *refmls.LeafNode) { l.Caps.Extensions = append(l.Caps.Extensions, 0xa001, 0xa002) }})
	base := m.KP
	other := uint16(1)
	if s.ID == 1 {
		other = 3
	}
	alter := []struct {
		n string
		f func(k *refmls.KeyPackage)
	}{
		{"nothing", func(k *refmls.KeyPackage) {}},
		{"suite", func(k *refmls.KeyPackage) { k.Suite = other }},
		{"init key", func(k *refmls.KeyPackage) { k.InitKey = flip(k.InitKey, r.Intn(len(k.InitKey))) }},
		{"init key length", func(k *refmls.KeyPackage) { k.InitKey = append(append([]byte{}, k.InitKey...), 0) }},
		{"encryption key", func(k *refmls.KeyPackage) { k.Leaf.EncKey = flip(k.Leaf.EncKey, r.Intn(len(k.Leaf.EncKey))) }},
		{"signature key", func(k *refmls.KeyPackage) { k.Leaf.SigKey = flip(k.Leaf.SigKey, r.Intn(len(k.Leaf.SigKey))) }},
		{"identity", func(k *refmls.KeyPackage) { k.Leaf.Cred.Identity = flip(k.Leaf.Cred.Identity, 0) }},
		{"identity length", func(k *refmls.KeyPackage) {
			k.Leaf.Cred.Identity = append(append([]byte{}, k.Leaf.Cred.Identity...), 0)
		}},
		{"credential type", func(k *refmls.KeyPackage) { k.Leaf.Cred = refmls.Credential{Type: 2, Certs: [][]byte{{1}}} }},
		{"versions", func(k *refmls.KeyPackage) { k.Leaf.Caps.Versions = append(k.Leaf.Caps.Versions, 7) }},
		{"suites", func(k *refmls.KeyPackage) { k.Leaf.Caps.Suites = append(k.Leaf.Caps.Suites, 7) }},
		{"extensions", func(k *refmls.KeyPackage) { k.Leaf.Caps.Extensions = append(k.Leaf.Caps.Extensions, 7) }},
		{"proposals", func(k *refmls.KeyPackage) { k.Leaf.Caps.Proposals = append(k.Leaf.Caps.Proposals, 7) }},
		{"credentials", func(k *refmls.KeyPackage) { k.Leaf.Caps.Credentials = append(k.Leaf.Caps.Credentials, 7) }},
		{"not before", func(k *refmls.KeyPackage) { k.Leaf.NotBefore++ }},
		{"not after", func(k *refmls.KeyPackage) { k.Leaf.NotAfter += 1 << 40 }},
		{"leaf source", func(k *refmls.KeyPackage) { k.Leaf.Source = refmls.SrcUpdate }},
		{"leaf source with hash", func(k *refmls.KeyPackage) { k.Leaf.Source, k.Leaf.ParentHash = refmls.SrcCommit, []byte{1, 2} }},
		{"leaf extension", func(k *refmls.KeyPackage) { k.Leaf.Exts = []refmls.Extension{{Type: 0xa001, Data: []byte{1, 3}}} }},
		{"leaf extension type", func(k *refmls.KeyPackage) { k.Leaf.Exts = []refmls.Extension{{Type: 0xa003, Data: []byte{1, 2}}} }},
		{"leaf extensions missing", func(k *refmls.KeyPackage) { k.Leaf.Exts = nil }},
		{"leaf signature", func(k *refmls.KeyPackage) { k.Leaf.Sig = flip(k.Leaf.Sig, r.Intn(len(k.Leaf.Sig))) }},
		{"leaf signature length", func(k *refmls.KeyPackage) { k.Leaf.Sig = k.Leaf.Sig[:len(k.Leaf.Sig)-1] }},
		{"extension", func(k *refmls.KeyPackage) { k.Exts = []refmls.Extension{{Type: 0xa002, Data: []byte{4}}} }},
		{"extension added", func(k *refmls.KeyPackage) { k.Exts = append(k.Exts, refmls.Extension{Type: 0xa002, Data: []byte{}}) }},
		{"extensions missing", func(k *refmls.KeyPackage) { k.Exts = nil }},
		{"signature", func(k *refmls.KeyPackage) { k.Sig = flip(k.Sig, r.Intn(len(k.Sig))) }},
		{"signature last byte", func(k *refmls.KeyPackage) { k.Sig = flip(k.Sig, len(k.Sig)-1) }},
		{"signature empty", func(k *refmls.KeyPackage) { k.Sig = []byte{} }},
	}
	type entry struct {
		n   string
		raw []byte
		ref mls.KeyPackageRef
	}
	var all []entry
	for _, a := range alter {
		k := base.Clone()
		a.f(k)
		raw := k.MsgBytes()
		var pub *mls.KeyPackage
		var err error
		x.Lib("UnmarshalKeyPackage", func() { pub, err = mls.UnmarshalKeyPackage(raw) })
		if err != nil {
			x.Fail("decode", "a well-formed key package (altered %s) is refused: %v", a.n, err)
		}
		hs := s
		if k.Suite != s.ID {
			hs = refmls.GetSuite(k.Suite)
		}
		all = append(all, entry{a.n, raw, ref(x, hs, pub, k)})
	}
	for i, a := range all {
		for j, b := range all {
			same := bytes.Equal(a.raw, b.raw)
			x.Eval(1)
			if a.ref.Equal(b.ref) != same {
				x.Fail("reference-equal", "references of packages that differ in %s and %s: equal is %v", a.n, b.n, !same)
			}
			if i == 0 && !same {
				x.Seen("reference|%d|%s", s.ID, b.n)
			}
			_ = j
		}
		var prefix mls.KeyPackageRef = a.ref[:len(a.ref)-1]
		if prefix.Equal(a.ref) || a.ref.Equal(prefix) || a.ref.Equal(nil) || mls.KeyPackageRef(nil).Equal(a.ref) || a.ref.Equal(append(a.ref[:len(a.ref):len(a.ref)], 0)) {
			x.Fail("reference-equal", "a reference equals a part of it")
		}
	}
}

// c16Process compares packages of fresh processes.
func c16Process(x *run.Ctx) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var book keyBook
	for i := 0; i < 6; i++ {
		out, err := exec.Command(self, "-fresh", fmt.Sprint(x.P("suite"))).Output()
		if err != nil {
			x.Fail("fresh-process", "a fresh process cannot create a group: %v %s", err, out)
		}
		var f Fresh
		if err := json.Unmarshal(out, &f); err != nil {
			panic(err)
		}
		for _, k := range []string{"init key", "encryption key", "signature key"} {
			book.note(x, fmt.Sprintf("%s of process %d", k, i), []byte(f.Values[k]))
			x.Seen("process|%d|%s", x.P("suite"), k)
		}
	}
}
