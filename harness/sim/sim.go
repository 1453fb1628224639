// Package sim plays groups whose members are partly library members and
// partly members of the reference implementation.
package sim

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
)

// Client is a key package with private keys, usable by both sides.
type Client struct {
	M      *refmls.Member
	KPP    *mls.KeyPairPackage // library form
	Native bool                // generated by the library
	Name   string
}

// Member is one member of a group.
type Member struct {
	Name string
	C    *Client
	Lib  *mls.Group
	Ref  *refmls.Group
	Leaf uint32
	Twin *mls.Group // gets what World delivers, but no hostile messages
}

func (m *Member) IsLib() bool { return m.Lib != nil }

// Cfg configures a world.
type Cfg struct {
	Suite    uint16
	GID      []byte
	LibFound bool   // the founder is a library member
	Epoch0   uint64 // of reference-founded groups
	Exts     []refmls.Extension
	Variety  bool // unusual credentials, extensions, field sizes
	X509     bool // every member supports X.509 credentials
	Able     bool // like X509, for members made while Plain is off
	Wide     bool // every member supports the extensions 0xfe00 to 0xfe04
	GCE      bool // the group context extensions are not empty or change
	Strict   bool // reference members insist on fresh generations
	Twins    bool // library joiners join twice
	Scribble bool // every buffer is overwritten after the call
	LibRatio int  // of 10 newcomers, how many are library members
}

// World is one group with all its members.
type World struct {
	X       *run.Ctx
	R       *rand.Rand
	S       *refmls.Suite
	Cfg     Cfg
	Members []*Member
	Gone    []*Member // removed members, as they were
	Epoch   uint64
	nextID  int
	// Plain clients support no X.509 credentials although the others do.
	Plain bool
	// OnLibMsg observes each message a library member emits, as opened by a
	// reference member of the same epoch.
	OnLibMsg func(m *Member, raw []byte, ev *refmls.Event)
	// Commits are the raw commits by epoch they end (for replays).
	Commits [][]byte
	// AfterCommit is called after every epoch change.
	AfterCommit func()
}

// CS is the library's cipher suite value.
func (w *World) CS() mls.CipherSuite { return mls.CipherSuite(w.S.ID) }

// LibClientFrom wraps a reference member for use by the library.
func LibClientFrom(x *run.Ctx, m *refmls.Member) *mls.KeyPairPackage {
	var kp *mls.KeyPackage
	var err error
	buf := Lend(x, m.KP.MsgBytes())
	x.Lib("UnmarshalKeyPackage", func() { kp, err = mls.UnmarshalKeyPackage(buf.B) })
	buf.Back("UnmarshalKeyPackage")
	if err != nil {
		x.Fail("decode", "UnmarshalKeyPackage refused a valid key package: %v (%x)", err, m.KP.MsgBytes())
	}
	return &mls.KeyPairPackage{Public: *kp, Private: mls.PrivateKeyPackage{InitKey: m.InitPriv, EncryptionKey: m.EncPriv, SignatureKey: m.SigPriv}}
}

// MirrorOf parses a library key pair package for use by the reference.
func MirrorOf(x *run.Ctx, s *refmls.Suite, kpp *mls.KeyPairPackage) *refmls.Member {
	var raw []byte
	x.Lib("KeyPackage.Bytes", func() { raw = Keep(kpp.Public.Bytes()) })
	kp, err := refmls.ParseKeyPackage(raw)
	if err != nil {
		x.Fail("kp-parse", "generated key package does not parse: %v (%x)", err, raw)
	}
	return &refmls.Member{S: s, KP: *kp, InitPriv: kpp.Private.InitKey, EncPriv: kpp.Private.EncryptionKey, SigPriv: kpp.Private.SignatureKey}
}

// NativeClient generates a key package with the library.
func NativeClient(x *run.Ctx, s *refmls.Suite, name string, identity []byte) *Client {
	var kpp *mls.KeyPairPackage
	var err error
	x.Lib("GenerateKeyPairPackage", func() {
		buf := Lend(x, identity)
		cred := mls.NewBasicCredential(buf.B)
		kpp, err = mls.GenerateKeyPairPackage(mls.CipherSuite(s.ID), cred)
		buf.Back("GenerateKeyPairPackage")
		*cred = *mls.NewBasicCredential([]byte("overwritten"))
	})
	if err != nil {
		x.Fail("generate", "GenerateKeyPairPackage: %v", err)
	}
	return &Client{KPP: kpp, M: MirrorOf(x, s, kpp), Native: true, Name: name}
}

func pickLen(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 63
	case 2:
		return 64
	case 3:
		return 200 + r.Intn(200)
	case 4:
		return 16383 - r.Intn(2)
	case 5:
		return 16384 + r.Intn(3)
	default:
		return 1 + r.Intn(40)
	}
}

// RandOpts draws unusual but legitimate key package contents.
func (w *World) RandOpts() *refmls.MemberOpts {
	r := w.R
	o := &refmls.MemberOpts{Identity: refmls.Bytes(r, pickLen(r))}
	caps := refmls.DefaultCaps(w.S)
	if r.Intn(2) == 0 {
		caps.Versions = append(caps.Versions, 0x0a0a, 2)
		caps.Suites = append(caps.Suites, 0x1a1a, 9, 4)
		caps.Proposals = append(caps.Proposals, 0xeaea, 8)
		caps.Credentials = append(caps.Credentials, 0x4a4a)
	}
	if w.Cfg.X509 {
		caps.Credentials = append(caps.Credentials, 2)
		if r.Intn(2) == 0 {
			c := refmls.Credential{Type: 2}
			for i := r.Intn(4); i >= 0; i-- {
				c.Certs = append(c.Certs, refmls.Bytes(r, pickLen(r)%500))
			}
			o.Cred = &c
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		t := uint16(0xa000 + r.Intn(100)*7 + i)
		caps.Extensions = append(caps.Extensions, t)
		if r.Intn(2) == 0 {
			o.LeafExts = append(o.LeafExts, refmls.Extension{Type: t, Data: refmls.Bytes(r, pickLen(r)%300)})
		}
	}
	if r.Intn(4) == 0 {
		// A default extension type: need not be listed.
		o.LeafExts = append(o.LeafExts, refmls.Extension{Type: 1, Data: []byte("app-id")})
	}
	if r.Intn(3) == 0 {
		t := uint16(0xb000 + r.Intn(100))
		caps.Extensions = append(caps.Extensions, t)
		o.KPExts = append(o.KPExts, refmls.Extension{Type: t, Data: refmls.Bytes(r, r.Intn(100))})
	}
	if r.Intn(8) == 0 {
		caps.Extensions = nil
		o.LeafExts, o.KPExts = nil, nil
	}
	if r.Intn(8) == 0 {
		caps.Credentials = append(caps.Credentials, 1)
	}
	for _, l := range []([]uint16){caps.Versions, caps.Suites, caps.Proposals, caps.Credentials, caps.Extensions} {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	o.Caps = &caps
	return o
}

// RandExts draws group context extensions that every member supports.
func RandExts(r *rand.Rand, cfg *Cfg) []refmls.Extension {
	var out []refmls.Extension
	if r.Intn(2) == 0 {
		// required_capabilities
		var w refmls.W
		list := func(v []uint16) {
			w.U16s(v)
		}
		if cfg.Wide && r.Intn(2) == 0 {
			list([]uint16{0xfe00, 0xfe03})
		} else {
			list(nil)
		}
		list(nil)
		if r.Intn(2) == 0 {
			list([]uint16{1})
		} else {
			list(nil)
		}
		out = append(out, refmls.Extension{Type: 3, Data: w.B})
	}
	if r.Intn(2) == 0 {
		// external_senders
		var w refmls.W
		w.Sub(func(w *refmls.W) {
			for i := r.Intn(3); i > 0; i-- {
				pub, _ := refmls.GetSuite(cfg.Suite).GenSig(r)
				w.Vec(pub)
				w.U16(1)
				w.Vec(refmls.Bytes(r, r.Intn(30)))
			}
		})
		out = append(out, refmls.Extension{Type: 5, Data: w.B})
	}
	if cfg.Wide {
		for _, t := range r.Perm(5)[:1+r.Intn(5)] {
			out = append(out, refmls.Extension{Type: 0xfe00 + uint16(t), Data: refmls.Bytes(r, pickLen(r)%500)})
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func widen(o *refmls.MemberOpts, s *refmls.Suite) {
	caps := refmls.DefaultCaps(s)
	if o.Caps != nil {
		caps = *o.Caps
	}
	caps.Extensions = append(append([]uint16{}, caps.Extensions...), 0xfe04, 0xfe03, 0xfe02, 0xfe01, 0xfe00)
	o.Caps = &caps
}

// NewClient makes a client; lib clients can be native or hand-made.
func (w *World) NewClient(lib bool) *Client {
	w.nextID++
	name := fmt.Sprintf("m%d", w.nextID)
	id := []byte(name)
	if w.Cfg.Variety && w.R.Intn(4) == 0 {
		id = refmls.Bytes(w.R, pickLen(w.R))
	}
	if lib && !w.Cfg.X509 && !w.Cfg.Wide && (!w.Cfg.Able || w.Plain) && w.R.Intn(2) == 0 {
		return NativeClient(w.X, w.S, name, id)
	}
	o := &refmls.MemberOpts{Identity: id}
	if w.Cfg.X509 || (w.Cfg.Variety && w.R.Intn(2) == 0) {
		o = w.RandOpts()
	}
	if w.Cfg.Wide {
		widen(o, w.S)
	}
	if w.Cfg.Able && !w.Plain {
		caps := refmls.DefaultCaps(w.S)
		if o.Caps != nil {
			caps = *o.Caps
		}
		caps.Credentials = append(append([]uint16{}, caps.Credentials...), 2)
		o.Caps = &caps
	}
	c := &Client{M: refmls.NewMember(w.S, w.R, o), Name: name}
	if lib {
		c.KPP = LibClientFrom(w.X, c.M)
	}
	return c
}

// Hex shortens bytes for messages.
func Hex(b []byte) string {
	if len(b) > 2000 {
		return hex.EncodeToString(b[:2000]) + "..."
	}
	return hex.EncodeToString(b)
}

// New founds a world. A library-founded world invites a reference member at
// once, so that there is always a witness.
func New(x *run.Ctx, cfg Cfg) *World {
	w := &World{X: x, R: x.Rng, S: refmls.GetSuite(cfg.Suite), Cfg: cfg}
	if cfg.LibRatio == 0 {
		w.Cfg.LibRatio = 7
	}
	if cfg.LibFound {
		c := w.NewClient(true)
		var g *mls.Group
		var err error
		if cfg.Scribble {
			gid, kpp := Lend(x, cfg.GID), LendKPP(x, c.KPP)
			x.Lib("CreateGroup", func() { g, err = mls.CreateGroup(mls.GroupID(gid.B), kpp.KPP) })
			gid.Back("CreateGroup")
			kpp.Back("CreateGroup")
		} else {
			x.Lib("CreateGroup", func() { g, err = mls.CreateGroup(mls.GroupID(cfg.GID), c.KPP) })
		}
		if err != nil {
			x.Fail("create", "CreateGroup: %v", err)
		}
		m := &Member{Name: c.Name, C: c, Lib: g}
		w.Members = []*Member{m}
		x.Log("lib %s founds the group (suite %d)", m.Name, cfg.Suite)
		w.Invite(m, []*Client{w.NewClient(false)}, []bool{false})
	} else {
		c := w.NewClient(false)
		g := refmls.Create(cfg.GID, c.M, cfg.Epoch0, cfg.Exts, w.R)
		g.Lenient = !cfg.Strict
		w.Epoch = cfg.Epoch0
		w.Members = []*Member{{Name: c.Name, C: c, Ref: g}}
		x.Log("ref %s founds the group (suite %d)", c.Name, cfg.Suite)
	}
	return w
}

// Witness is a reference member.
func (w *World) Witness() *Member {
	for _, m := range w.Members {
		if m.Ref != nil {
			return m
		}
	}
	return nil
}

// Refs and Libs list the members of each kind.
func (w *World) Refs() []*Member { return w.filter(false) }
func (w *World) Libs() []*Member { return w.filter(true) }

func (w *World) filter(lib bool) []*Member {
	var out []*Member
	for _, m := range w.Members {
		if m.IsLib() == lib {
			out = append(out, m)
		}
	}
	return out
}

// LibProcess hands a message to a library member.
func (w *World) LibProcess(m *Member, raw []byte) (out []byte, err error) {
	if w.Cfg.Scribble {
		buf := Lend(w.X, raw)
		w.X.Lib("UnmarshalAndProcessMessage at "+m.Name, func() { out, err = m.Lib.UnmarshalAndProcessMessage(buf.B) })
		buf.Back("UnmarshalAndProcessMessage")
		return Keep(out), err
	}
	w.X.Lib("UnmarshalAndProcessMessage at "+m.Name, func() { out, err = m.Lib.UnmarshalAndProcessMessage(raw) })
	if m.Twin != nil {
		var out2 []byte
		var err2 error
		w.X.Lib("UnmarshalAndProcessMessage at the twin of "+m.Name, func() { out2, err2 = m.Twin.UnmarshalAndProcessMessage(raw) })
		w.X.Eval(1)
		if (err == nil) != (err2 == nil) || !bytes.Equal(out, out2) {
			w.X.Fail("twin", "two copies of member %s that got the same accepted messages differ in epoch %d: one that also refused others returns %d bytes, error %v; the other returns %d bytes, error %v", m.Name, w.Epoch, len(out), err, len(out2), err2)
		}
	}
	return
}

// LibApp makes a library member send.
func (w *World) LibApp(m *Member, data []byte) []byte {
	var raw []byte
	var err error
	buf := Lend(w.X, data)
	w.X.Lib("CreateApplicationMessage", func() { raw, err = m.Lib.CreateApplicationMessage(buf.B) })
	buf.Back("CreateApplicationMessage")
	if err != nil {
		w.X.Fail("send", "CreateApplicationMessage at %s: %v", m.Name, err)
	}
	w.named(m, raw)
	return Keep(raw)
}

// named requires that a message names the group.
func (w *World) named(m *Member, raw []byte) {
	p, err := refmls.ParseMessage(raw)
	if err != nil {
		w.X.Fail("emission", "%s sent something that is not a message: %v", m.Name, err)
	}
	var gid []byte
	switch {
	case p.Private != nil:
		gid = p.Private.GroupID
	case p.Public != nil:
		gid = p.Public.Content.GroupID
	}
	if !bytes.Equal(gid, w.Cfg.GID) {
		w.X.Fail("group-id", "%s sent a message for group %s, it is in group %s", m.Name, Hex(gid), Hex(w.Cfg.GID))
	}
}

// WireEpoch is the epoch number on a message.
func WireEpoch(raw []byte) (uint64, bool) {
	m, err := refmls.ParseMessage(raw)
	if err != nil {
		return 0, false
	}
	switch {
	case m.Private != nil:
		return m.Private.Epoch, true
	case m.Public != nil:
		return m.Public.Content.Epoch, true
	}
	return 0, false
}

// observe lets the witness open a library emission.
func (w *World) observe(m *Member, raw []byte) {
	if w.OnLibMsg == nil {
		return
	}
	wit := w.Witness()
	if wit == nil {
		return
	}
	g := wit.Ref.Clone()
	g.Lenient = true
	_, ev, err := g.Open(raw)
	if err != nil {
		w.X.Fail("emission", "a conforming member cannot open a message of %s: %v (%s)", m.Name, err, Hex(raw))
	}
	w.OnLibMsg(m, raw, ev)
}

// Say sends one application message from m and delivers it to the given
// members (nil: everyone else).
func (w *World) Say(m *Member, data []byte, o *refmls.SealOpts, to []*Member) {
	x := w.X
	var raw []byte
	if m.IsLib() {
		raw = w.LibApp(m, data)
		w.observe(m, raw)
		if e, ok := WireEpoch(raw); !ok || e != w.Epoch {
			x.Fail("epoch", "%s sent a message for epoch %d, the group is in %d", m.Name, e, w.Epoch)
		}
	} else {
		raw = m.Ref.App(data, o)
	}
	if to == nil {
		to = w.Members
	}
	for _, d := range to {
		if d == m {
			continue
		}
		w.ExpectApp(d, raw, data, m.Name)
	}
}

// ExpectApp delivers a message and requires the payload.
func (w *World) ExpectApp(d *Member, raw, data []byte, from string) {
	x := w.X
	x.Eval(1)
	if d.IsLib() {
		out, err := w.LibProcess(d, raw)
		if err != nil {
			x.Fail("app-refused", "library member %s refused an application message of %s in epoch %d (%d members, payload %d bytes): %v", d.Name, from, w.Epoch, len(w.Members), len(data), err)
		}
		if !bytes.Equal(out, data) {
			x.Fail("app-data", "library member %s returned %q for a message of %s, sent %q", d.Name, Hex(out), from, Hex(data))
		}
		return
	}
	ev, err := d.Ref.Process(raw)
	if err != nil {
		x.Fail("app-emission", "conforming member %s refused an application message of %s in epoch %d (%d members): %v", d.Name, from, w.Epoch, len(w.Members), err)
	}
	if !bytes.Equal(ev.App, data) {
		x.Fail("app-data", "conforming member %s read %q from %s, sent %q", d.Name, Hex(ev.App), from, Hex(data))
	}
}

// Payload draws a payload.
func (w *World) Payload() []byte { return refmls.Bytes(w.R, pickLen(w.R)%70000) }

// SmallPayload draws a short payload.
func (w *World) SmallPayload() []byte { return refmls.Bytes(w.R, 1+w.R.Intn(30)) }

// Agree checks that all members are in one epoch state: the witness hears
// every library member and is heard by every one.
func (w *World) Agree() {
	wit := w.Witness()
	for _, m := range w.Libs() {
		w.Say(m, w.SmallPayload(), nil, []*Member{wit})
	}
	w.Say(wit, w.SmallPayload(), nil, nil)
}

// AgreeAll sends from everyone to everyone.
func (w *World) AgreeAll() {
	for _, m := range w.Members {
		w.Say(m, w.SmallPayload(), nil, nil)
	}
}

// Invitation is a prepared library invitation.
type Invitation struct {
	Welcome *mls.Welcome
	Raw     []byte
	Clients []*Client
}

// KPs returns library key packages of clients.
func (w *World) KPs(cl []*Client) []mls.KeyPackage {
	var out []mls.KeyPackage
	for _, c := range cl {
		if c.KPP != nil {
			out = append(out, c.KPP.Public)
			continue
		}
		out = append(out, LibClientFrom(w.X, c.M).Public)
	}
	return out
}

// Prepare makes a library member create an invitation.
func (w *World) Prepare(m *Member, cl []*Client) *Invitation {
	inv := &Invitation{Clients: cl}
	var err error
	kps := w.KPs(cl)
	var before [][]byte
	if w.Cfg.Scribble {
		for i := range kps {
			before = append(before, kps[i].Bytes())
		}
	}
	w.X.Lib("CreateWelcome", func() { inv.Welcome, inv.Raw, err = m.Lib.CreateWelcome(kps) })
	for i := range before {
		if !bytes.Equal(kps[i].Bytes(), before[i]) {
			w.X.Fail("caller-modified", "CreateWelcome changed a key package of the caller")
		}
		kps[i] = mls.KeyPackage{}
		if r := w.R.Intn(len(kps)); r > i {
			kps[i] = kps[r]
		}
	}
	if err != nil {
		w.X.Fail("invite", "CreateWelcome at %s for %d valid key packages failed: %v", m.Name, len(cl), err)
	}
	w.named(m, inv.Raw)
	inv.Raw = Keep(inv.Raw)
	if w.Cfg.Scribble {
		Keep(inv.Welcome.Bytes())
		for _, ref := range inv.Welcome.NewMembers() {
			Keep(ref)
		}
	}
	w.observe(m, inv.Raw)
	return inv
}

// JoinLib joins through the library.
func (w *World) JoinLib(c *Client, raw []byte, direct *mls.Welcome) *Member {
	x := w.X
	wel := direct
	var err error
	if wel == nil {
		buf := Lend(x, raw)
		x.Lib("UnmarshalWelcome", func() { wel, err = mls.UnmarshalWelcome(buf.B) })
		buf.Back("UnmarshalWelcome")
		if err != nil {
			x.Fail("decode", "UnmarshalWelcome refused a valid welcome: %v", err)
		}
	}
	var g *mls.Group
	if w.Cfg.Scribble {
		kpp := LendKPP(x, c.KPP)
		x.Lib("GroupFromWelcome", func() { g, err = mls.GroupFromWelcome(wel, kpp.KPP) })
		kpp.Back("GroupFromWelcome")
		if b := wel.Bytes(); !bytes.Equal(b, raw) {
			x.Fail("caller-modified", "GroupFromWelcome changed the Welcome")
		} else {
			Keep(b)
		}
		for _, ref := range wel.NewMembers() {
			Keep(ref)
		}
	} else {
		x.Lib("GroupFromWelcome", func() { g, err = mls.GroupFromWelcome(wel, c.KPP) })
	}
	x.Eval(1)
	if err != nil {
		x.Fail("join", "library client %s cannot join from a valid welcome (epoch %d): %v", c.Name, w.Epoch, err)
	}
	m := &Member{Name: c.Name, C: c, Lib: g}
	if w.Cfg.Twins {
		x.Lib("GroupFromWelcome", func() {
			if wel, err = mls.UnmarshalWelcome(raw); err == nil {
				m.Twin, err = mls.GroupFromWelcome(wel, c.KPP)
			}
		})
		if err != nil {
			x.Fail("join", "library client %s cannot join twice from a valid welcome (epoch %d): %v", c.Name, w.Epoch, err)
		}
	}
	return m
}

// JoinRef joins through the reference implementation.
func (w *World) JoinRef(c *Client, raw []byte) *Member {
	x := w.X
	wel, err := refmls.ParseWelcome(raw)
	if err != nil {
		x.Fail("welcome-parse", "welcome does not parse at a conforming client: %v", err)
	}
	g, err := refmls.Join(wel, c.M, &refmls.JoinOpts{Rng: w.R, Now: nowUnix()})
	x.Eval(1)
	if err != nil {
		x.Fail("welcome-emission", "conforming client %s cannot join from a welcome: %v", c.Name, err)
	}
	g.Lenient = !w.Cfg.Strict
	return &Member{Name: c.Name, C: c, Ref: g, Leaf: g.MyLeaf}
}

// DeliverCommit hands a commit to all members. skip members do not get it
// (reference committers have already advanced); gone members must refuse it.
func (w *World) DeliverCommit(raw []byte, from string, skip *Member, gone map[*Member]bool) {
	x := w.X
	for _, m := range w.Members {
		if m == skip || gone[m] {
			continue
		}
		x.Eval(1)
		if m.IsLib() {
			out, err := w.LibProcess(m, raw)
			if err != nil {
				x.Fail("commit-refused", "library member %s refused a valid commit of %s in epoch %d (%d members): %v", m.Name, from, w.Epoch, len(w.Members), err)
			}
			if len(out) != 0 {
				x.Fail("commit-data", "library member %s returned application data for a commit", m.Name)
			}
			continue
		}
		if _, err := m.Ref.Process(raw); err != nil {
			x.Fail("commit-emission", "conforming member %s refused a commit of %s in epoch %d: %v", m.Name, from, w.Epoch, err)
		}
	}
	w.Commits = append(w.Commits, raw)
	w.Epoch++
}

// Invite makes a library member invite clients; libs[i] says whether client i
// joins through the library.
func (w *World) Invite(m *Member, cl []*Client, libs []bool) {
	inv := w.Prepare(m, cl)
	w.Complete(m, inv, libs)
}

// Complete delivers a prepared invitation.
func (w *World) Complete(m *Member, inv *Invitation, libs []bool) {
	x := w.X
	x.Log("epoch %d: lib %s invites %d", w.Epoch, m.Name, len(inv.Clients))
	var raw []byte
	x.Lib("Welcome.Bytes", func() { raw = inv.Welcome.Bytes() })
	w.DeliverCommit(inv.Raw, m.Name, nil, nil)
	for i, c := range inv.Clients {
		if libs[i] {
			direct := inv.Welcome
			if w.R.Intn(2) == 0 {
				direct = nil
			}
			w.Members = append(w.Members, w.JoinLib(c, raw, direct))
		} else {
			w.Members = append(w.Members, w.JoinRef(c, raw))
		}
	}
	if w.AfterCommit != nil {
		w.AfterCommit()
	}
}

// LeafOf finds the leaf index of a member in the witness's tree.
func (w *World) LeafOf(m *Member) uint32 {
	if m.Ref != nil {
		return m.Ref.MyLeaf
	}
	t := w.Witness().Ref.Tree
	for _, li := range t.Members() {
		if bytes.Equal(t.Leaf(li).SigKey, m.C.M.KP.Leaf.SigKey) {
			return li
		}
	}
	w.X.Fail("lost-member", "member %s is not in the tree of a conforming member", m.Name)
	return 0
}

// Spec is what a reference commit should do.
type Spec struct {
	By      *Member
	Adds    []*Client
	AddLib  []bool
	Removes []*Member
	Updates []*Member // reference members only
	ByRef   bool      // send the proposals separately
	RefAdds bool      // the adds are proposed by another member
	Path    bool
	Seal    refmls.SealOpts
	GenSkip uint32 // unused handshake generations before the commit
	NewSig  bool   // the committer rotates its signature key
	H       refmls.Hooks
	GCE     []refmls.Extension
	HasGCE  bool
	Renewed bool // set by Build
	sigs    map[*Member][2][]byte
}

// Propose sends a proposal of a reference member to everyone.
func (w *World) Propose(m *Member, p *refmls.Proposal, o *refmls.SealOpts) (ref []byte) {
	raw, ref := m.Ref.Propose(p, o)
	w.DeliverProposal(raw, m)
	return ref
}

// DeliverProposal hands a proposal to everyone but its sender.
func (w *World) DeliverProposal(raw []byte, from *Member) {
	for _, d := range w.Members {
		if d == from {
			continue
		}
		w.X.Eval(1)
		if d.IsLib() {
			out, err := w.LibProcess(d, raw)
			if err != nil {
				w.X.Fail("proposal-refused", "library member %s refused a valid proposal in epoch %d: %v", d.Name, w.Epoch, err)
			}
			if len(out) != 0 {
				w.X.Fail("proposal-data", "library member %s returned application data for a proposal", d.Name)
			}
		} else if _, err := d.Ref.Process(raw); err != nil {
			panic(fmt.Sprintf("reference refused its own proposal: %v", err))
		}
	}
}

// Build turns a spec into a commit without delivering it (proposals by
// reference are delivered).
func (w *World) Build(sp *Spec) *refmls.CommitResult {
	r := w.R
	by := sp.By
	o := &refmls.CommitOpts{Path: sp.Path, Seal: sp.Seal, H: sp.H}
	put := func(p *refmls.Proposal, sender *Member) {
		if sender == nil && sp.ByRef && r.Intn(2) == 0 {
			sender = by
			if rs := w.Refs(); r.Intn(2) == 0 {
				sender = rs[r.Intn(len(rs))]
				for _, g := range sp.Removes {
					if g == sender {
						sender = by
					}
				}
			}
		}
		if sender == nil {
			o.List = append(o.List, refmls.ProposalOrRef{Proposal: p})
			return
		}
		so := &refmls.SealOpts{Public: r.Intn(2) == 0, AAD: refmls.Bytes(r, r.Intn(3)*r.Intn(60)), Pad: r.Intn(3) * r.Intn(100)}
		ref := w.Propose(sender, p, so)
		o.List = append(o.List, refmls.ProposalOrRef{Ref: ref})
	}
	for _, u := range sp.Updates {
		pre, key := w.Renew(sp), []byte(nil)
		if pre != nil && r.Intn(2) == 0 {
			// the signature key changes, too
			more, pub, priv := pre, []byte(nil), []byte(nil)
			pub, priv = w.S.GenSig(r)
			pre, key = func(l *refmls.LeafNode) { more(l); l.SigKey = pub }, priv
			if sp.sigs == nil {
				sp.sigs = map[*Member][2][]byte{}
			}
			sp.sigs[u] = [2][]byte{pub, priv}
		}
		put(&refmls.Proposal{Type: refmls.PropUpdate, Update: u.Ref.NewUpdateLeaf(pre, key, nil)}, u)
	}
	for _, m := range sp.Removes {
		put(&refmls.Proposal{Type: refmls.PropRemove, Removed: w.LeafOf(m)}, nil)
	}
	for _, c := range sp.Adds {
		put(&refmls.Proposal{Type: refmls.PropAdd, Add: &c.M.KP}, nil)
	}
	if sp.HasGCE {
		put(&refmls.Proposal{Type: refmls.PropGCE, GCE: sp.GCE}, nil)
	}
	// RFC 9420 prescribes no order of the list; adds keep their order.
	if sp.Path && sp.H.LeafPre == nil {
		o.H.LeafPre = w.Renew(sp)
	}
	if sp.NewSig {
		pub, priv := w.S.GenSig(r)
		o.H.NewSigPub, o.H.NewSigPriv = pub, priv
	}
	if sp.GenSkip > 0 {
		g := by.Ref.HSGen + sp.GenSkip
		o.Seal.Gen = &g
	}
	return by.Ref.Commit(o)
}

// Renew draws a legitimate change of the contents of a leaf node besides its
// keys, or none.
func (w *World) Renew(sp *Spec) func(*refmls.LeafNode) {
	r := w.R
	if !w.Cfg.Variety || r.Intn(3) > 0 {
		return nil
	}
	sp.Renewed = true
	return func(l *refmls.LeafNode) {
		if r.Intn(2) == 0 {
			l.Cred = refmls.Credential{Type: 1, Identity: refmls.Bytes(r, pickLen(r))}
		}
		if r.Intn(2) == 0 {
			t := uint16(0xa800 + r.Intn(100))
			l.Caps.Extensions = append(append([]uint16{}, l.Caps.Extensions...), t)
			l.Exts = append(append([]refmls.Extension{}, l.Exts...), refmls.Extension{Type: t, Data: refmls.Bytes(r, r.Intn(100))})
		} else if r.Intn(2) == 0 {
			l.Exts = nil
		}
		if r.Intn(2) == 0 {
			l.Caps.Versions = append(append([]uint16{}, l.Caps.Versions...), 0x2a2a)
			l.Caps.Proposals = append(append([]uint16{}, l.Caps.Proposals...), 0x3a3a, 0x0008)
		}
	}
}

// Commit plays a reference commit completely.
func (w *World) Commit(sp *Spec) *refmls.CommitResult {
	res := w.Build(sp)
	w.Apply(sp, res)
	return res
}

// Apply delivers a built commit and lets the newcomers join.
func (w *World) Apply(sp *Spec, res *refmls.CommitResult) {
	x := w.X
	by := sp.By
	x.Log("epoch %d: ref %s commits: %d adds %d removes %d updates path=%v public=%v byref=%v", w.Epoch, by.Name, len(sp.Adds), len(sp.Removes), len(sp.Updates), sp.Path, sp.Seal.Public, sp.ByRef)
	gone := map[*Member]bool{}
	for _, m := range sp.Removes {
		gone[m] = true
	}
	w.DeliverCommit(res.Raw, by.Name, by, gone)
	by.Ref = res.Next
	resign := func(by *Member, pub, priv []byte) {
		c := *by.C
		m := *c.M
		m.KP = *m.KP.Clone()
		m.SigPriv, m.KP.Leaf.SigKey = priv, pub
		c.M = &m
		by.C = &c
	}
	if sp.NewSig {
		resign(by, by.Ref.Tree.Leaf(by.Ref.MyLeaf).SigKey, by.Ref.SigPriv)
	}
	for u, k := range sp.sigs {
		u.Ref.SigPriv = k[1]
		resign(u, k[0], k[1])
	}
	var keep []*Member
	for _, m := range w.Members {
		if gone[m] {
			w.Gone = append(w.Gone, m)
			x.Eval(1)
			if m.IsLib() {
				if out, err := w.LibProcess(m, res.Raw); err == nil {
					x.Fail("removed-follows", "removed library member %s processed the commit that removes it (%d bytes returned)", m.Name, len(out))
				}
			}
			continue
		}
		keep = append(keep, m)
	}
	w.Members = keep
	if len(sp.Adds) > 0 {
		raw := res.Welcome.MsgBytes()
		for i, c := range sp.Adds {
			if sp.AddLib[i] {
				w.Members = append(w.Members, w.JoinLib(c, raw, nil))
			} else {
				w.Members = append(w.Members, w.JoinRef(c, raw))
			}
		}
	}
	if w.AfterCommit != nil {
		w.AfterCommit()
	}
}

// NewClients draws newcomers.
func (w *World) NewClients(n int) (cl []*Client, libs []bool) {
	for i := 0; i < n; i++ {
		lib := w.R.Intn(10) < w.Cfg.LibRatio
		libs = append(libs, lib)
		cl = append(cl, w.NewClient(lib))
	}
	return
}

// RandSeal draws framing options of a legitimate message.
func (w *World) RandSeal() refmls.SealOpts {
	r := w.R
	o := refmls.SealOpts{Public: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		o.AAD = refmls.Bytes(r, pickLen(r)%2000)
	}
	if r.Intn(3) == 0 {
		o.Pad = []int{1, 15, 64, 700}[r.Intn(4)]
	}
	return o
}

// RandomStep performs one random legitimate epoch change, keeping the group
// at most max members big.
func (w *World) RandomStep(max int) string {
	r := w.R
	libs, refs := w.Libs(), w.Refs()
	room := max - len(w.Members)
	if len(libs) > 0 && room > 0 && r.Intn(3) == 0 {
		k := 1
		if r.Intn(3) == 0 {
			k = 1 + r.Intn(min(room, 5))
		}
		m := libs[r.Intn(len(libs))]
		cl, ls := w.NewClients(k)
		w.Invite(m, cl, ls)
		return fmt.Sprintf("libinvite%d", k)
	}
	sp := &Spec{By: refs[r.Intn(len(refs))], Path: true, Seal: w.RandSeal(), ByRef: r.Intn(2) == 0}
	kind := r.Intn(8)
	if room <= 0 && (kind == 0 || kind == 1 || kind == 2) {
		kind = 3 + r.Intn(2)
	}
	nAdd, nRem, nUpd := 0, 0, 0
	switch kind {
	case 0: // plain add without path
		nAdd, sp.Path = 1+r.Intn(min(room, 4)), r.Intn(2) == 0
	case 1, 2:
		nAdd = 1 + r.Intn(min(room, 5))
		nRem, nUpd = r.Intn(3), r.Intn(3)
	case 3:
		nRem, nUpd = 1+r.Intn(3), r.Intn(2)
	case 4:
		nRem = 1 + r.Intn(2)
	case 5:
		nUpd = 1 + r.Intn(3)
	}
	// removals: never the committer
	perm := r.Perm(len(w.Members))
	for _, i := range perm {
		m := w.Members[i]
		if nRem == 0 || len(w.Members)-len(sp.Removes) <= 2 {
			break
		}
		if m == sp.By {
			continue
		}
		if m.IsLib() && len(libs)-countLib(sp.Removes) <= 1 {
			continue
		}
		sp.Removes = append(sp.Removes, m)
		nRem--
	}
	rem := map[*Member]bool{sp.By: true}
	for _, m := range sp.Removes {
		rem[m] = true
	}
	for _, m := range refs {
		if nUpd > 0 && !rem[m] {
			sp.Updates = append(sp.Updates, m)
			nUpd--
		}
	}
	if nAdd > 0 {
		sp.Adds, sp.AddLib = w.NewClients(nAdd)
	}
	if r.Intn(6) == 0 && sp.Path {
		sp.NewSig = true
	}
	if w.Cfg.GCE && sp.Path && r.Intn(4) == 0 {
		sp.HasGCE, sp.GCE = true, RandExts(r, &w.Cfg)
	}
	w.Commit(sp)
	return fmt.Sprintf("a%dr%du%dp%v", len(sp.Adds), len(sp.Removes), len(sp.Updates), sp.Path)
}

func countLib(ms []*Member) int {
	n := 0
	for _, m := range ms {
		if m.IsLib() {
			n++
		}
	}
	return n
}

// Shape summarises the tree of the witness.
func (w *World) Shape() string {
	t := w.Witness().Ref.Tree
	blankLeaf, blankParent, unmerged := 0, 0, 0
	for i, n := range t {
		switch {
		case n == nil && i%2 == 0:
			blankLeaf++
		case n == nil:
			blankParent++
		case n.Parent != nil && len(n.Parent.Unmerged) > 0:
			unmerged++
		}
	}
	b := func(n int) int {
		if n > 2 {
			return 3
		}
		return n
	}
	return fmt.Sprintf("w%d-bl%d-bp%d-u%d", t.NumLeaves(), b(blankLeaf), b(blankParent), b(unmerged))
}
