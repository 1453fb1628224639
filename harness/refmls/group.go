package refmls

import (
	"bytes"
	"crypto/hmac"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// Member is a client's key package with its private keys.
type Member struct {
	S                          *Suite
	KP                         KeyPackage
	InitPriv, EncPriv, SigPriv []byte
}

// MemberOpts customise NewMember; all fields optional.
type MemberOpts struct {
	Identity   []byte
	Cred       *Credential
	Caps       *Capabilities
	LeafExts   []Extension
	KPExts     []Extension
	NotBefore  uint64
	NotAfter   uint64
	SigPub     []byte // with SigPriv: reuse of a signature key
	SigPriv    []byte
	EncPub     []byte
	EncPriv    []byte
	InitPub    []byte
	InitPriv   []byte
	LeafPre    func(*LeafNode)
	LeafSigKey []byte
	LeafPost   func(*LeafNode)
	KPPre      func(*KeyPackage)
	KPSigKey   []byte
	KPPost     func(*KeyPackage)
	LeafTBSGID []byte // group id/index for leaves signed as update/commit
	LeafTBSIdx uint32
}

// DefaultCaps are the capabilities of an ordinary client.
func DefaultCaps(s *Suite) Capabilities {
	return Capabilities{
		Versions: []uint16{1}, Suites: []uint16{s.ID}, Extensions: []uint16{2},
		Proposals: []uint16{1, 2, 3}, Credentials: []uint16{CredBasic},
	}
}

// NewMember generates a client.
func NewMember(s *Suite, rng *rand.Rand, o *MemberOpts) *Member {
	if o == nil {
		o = &MemberOpts{}
	}
	m := &Member{S: s}
	initPub, initPriv := s.GenKEM(rng)
	encPub, encPriv := s.GenKEM(rng)
	sigPub, sigPriv := s.GenSig(rng)
	if o.SigPub != nil {
		sigPub, sigPriv = o.SigPub, o.SigPriv
	}
	if o.EncPub != nil {
		encPub, encPriv = o.EncPub, o.EncPriv
	}
	if o.InitPub != nil {
		initPub, initPriv = o.InitPub, o.InitPriv
	}
	m.InitPriv, m.EncPriv, m.SigPriv = initPriv, encPriv, sigPriv
	now := uint64(time.Now().Unix())
	m.KP = KeyPackage{
		Version: 1, Suite: s.ID, InitKey: initPub,
		Leaf: LeafNode{
			EncKey: encPub, SigKey: sigPub,
			Cred: Credential{Type: CredBasic, Identity: o.Identity},
			Caps: DefaultCaps(s), Source: SrcKeyPackage,
			NotBefore: now - 86400, NotAfter: now + 28*86400,
			Exts: o.LeafExts,
		},
		Exts: o.KPExts,
	}
	if o.Cred != nil {
		m.KP.Leaf.Cred = *o.Cred
	}
	if o.Caps != nil {
		m.KP.Leaf.Caps = *o.Caps
	}
	if o.NotAfter != 0 {
		m.KP.Leaf.NotBefore, m.KP.Leaf.NotAfter = o.NotBefore, o.NotAfter
	}
	if o.LeafPre != nil {
		o.LeafPre(&m.KP.Leaf)
	}
	k := sigPriv
	if o.LeafSigKey != nil {
		k = o.LeafSigKey
	}
	m.KP.Leaf.Sig = s.SignWithLabel(k, "LeafNodeTBS", m.KP.Leaf.TBS(o.LeafTBSGID, o.LeafTBSIdx))
	if o.LeafPost != nil {
		o.LeafPost(&m.KP.Leaf)
	}
	if o.KPPre != nil {
		o.KPPre(&m.KP)
	}
	k = sigPriv
	if o.KPSigKey != nil {
		k = o.KPSigKey
	}
	m.KP.Sig = s.SignWithLabel(k, "KeyPackageTBS", m.KP.TBS())
	if o.KPPost != nil {
		o.KPPost(&m.KP)
	}
	return m
}

// VerifyKeyPackage applies RFC 9420 section 10.1 (without group context).
func VerifyKeyPackage(s *Suite, k *KeyPackage, now uint64) error {
	if k.Version != 1 || k.Suite != s.ID {
		return errors.New("refmls: key package version/suite")
	}
	if k.Leaf.Source != SrcKeyPackage {
		return errors.New("refmls: key package leaf source")
	}
	if !s.VerifyWithLabel(k.Leaf.SigKey, "KeyPackageTBS", k.TBS(), k.Sig) {
		return errors.New("refmls: key package signature")
	}
	if bytes.Equal(k.InitKey, k.Leaf.EncKey) {
		return errors.New("refmls: init key equals encryption key")
	}
	if _, err := s.kem.NewPublicKey(k.InitKey); err != nil {
		return err
	}
	return Tree(nil).VerifyLeaf(s, &k.Leaf, nil, 0, now)
}

// Pending is a proposal received or sent in the current epoch.
type Pending struct {
	Ref      []byte
	Proposal *Proposal
	Sender   uint32
}

// Group is one member's view.
type Group struct {
	S       *Suite
	Ctx     GroupContext
	Tree    Tree
	Interim []byte
	ConfTag []byte

	Joiner, EpochSecret, InitSecret []byte

	MyLeaf  uint32
	Priv    map[int][]byte
	SigPriv []byte
	Pending []Pending

	AppGen, HSGen uint32
	used          map[string]bool
	ownUpdates    map[string][]byte
	PSKs          map[string][]byte // external PSKs by id
	Resumption    map[string][]byte // resumption PSKs by group id + epoch
	Rng           *rand.Rand
	Now           uint64 // 0: skip lifetimes of added key packages
	Lenient       bool   // tolerate repeated generations
}

// Clone copies a view; secrets and immutable parts are shared.
func (g *Group) Clone() *Group {
	c := *g
	c.Tree = g.Tree.Clone()
	c.Priv = map[int][]byte{}
	for k, v := range g.Priv {
		c.Priv[k] = v
	}
	c.Pending = append([]Pending(nil), g.Pending...)
	c.used = map[string]bool{}
	for k, v := range g.used {
		c.used[k] = v
	}
	c.ownUpdates = map[string][]byte{}
	for k, v := range g.ownUpdates {
		c.ownUpdates[k] = v
	}
	c.Resumption = map[string][]byte{}
	for k, v := range g.Resumption {
		c.Resumption[k] = v
	}
	return &c
}

func now() uint64 { return uint64(time.Now().Unix()) }

// Create founds a one-member group at the given epoch.
func Create(groupID []byte, m *Member, epoch uint64, exts []Extension, rng *rand.Rand) *Group {
	s := m.S
	g := &Group{S: s, SigPriv: m.SigPriv, Rng: rng, Now: now()}
	g.Tree.Add(m.KP.Leaf.Clone())
	g.Priv = map[int][]byte{0: m.EncPriv}
	g.Ctx = GroupContext{Version: 1, Suite: s.ID, GroupID: groupID, Epoch: epoch,
		TreeHash: g.Tree.RootHash(s), CTH: []byte{}, Exts: exts}
	g.setEpoch(Bytes(rng, s.Nh()))
	g.ConfTag = s.MAC(g.secret("confirm"), g.Ctx.CTH)
	g.Interim = interimHash(s, g.Ctx.CTH, g.ConfTag)
	return g
}

func interimHash(s *Suite, cth, tag []byte) []byte {
	var w W
	w.Vec(tag)
	return s.H(cth, w.B)
}

func (g *Group) setEpoch(epochSecret []byte) {
	g.EpochSecret = epochSecret
	g.InitSecret = g.secret("init")
	g.Pending = nil
	g.AppGen, g.HSGen = 0, 0
	g.used = map[string]bool{}
	g.ownUpdates = map[string][]byte{}
	if g.Resumption == nil {
		g.Resumption = map[string][]byte{}
	}
	g.Resumption[resKey(g.Ctx.GroupID, g.Ctx.Epoch)] = g.secret("resumption")
}

func resKey(gid []byte, epoch uint64) string {
	return string(binary.BigEndian.AppendUint64(append([]byte{}, gid...), epoch))
}

func (g *Group) secret(label string) []byte { return g.S.DeriveSecret(g.EpochSecret, label) }

// Secret derives a named epoch secret.
func (g *Group) Secret(label string) []byte { return g.secret(label) }

// Exporter derives an exported secret.
func (g *Group) Exporter(label string, context []byte, n int) []byte {
	return Exporter(g.S, g.secret("exporter"), label, context, n)
}

// Exporter is MLS-Exporter for a given exporter_secret.
func Exporter(s *Suite, exporterSecret []byte, label string, context []byte, n int) []byte {
	return s.ExpandWithLabel(s.DeriveSecret(exporterSecret, label), "exported", s.H(context), n)
}

// JoinerSecret is the first key schedule step.
func JoinerSecret(s *Suite, initSecret, commitSecret []byte, ctx *GroupContext) []byte {
	return s.ExpandWithLabel(s.Extract(initSecret, commitSecret), "joiner", ctx.Bytes(), s.Nh())
}

// EpochSecrets returns welcome and epoch secrets.
func EpochSecrets(s *Suite, joiner, psk []byte, ctx *GroupContext) (welcome, epoch []byte) {
	m := s.Extract(joiner, psk)
	return s.DeriveSecret(m, "welcome"), s.ExpandWithLabel(m, "epoch", ctx.Bytes(), s.Nh())
}

// PSKSecret combines pre-shared keys.
func PSKSecret(s *Suite, ids []PSKID, psks [][]byte) []byte {
	out := make([]byte, s.Nh())
	for i := range ids {
		ex := s.Extract(make([]byte, s.Nh()), psks[i])
		var w W
		ids[i].Put(&w)
		w.U16(uint16(i))
		w.U16(uint16(len(ids)))
		out = s.Extract(s.ExpandWithLabel(ex, "derived psk", w.B, s.Nh()), out)
	}
	return out
}

// --- secret tree ---

// TreeSecret returns the secret tree node secret of a leaf.
func TreeSecret(s *Suite, encSecret []byte, width int, li uint32) []byte {
	x := rootOf(width)
	sec := encSecret
	for x != leafNode(li) {
		if leafNode(li) < x {
			sec = s.ExpandWithLabel(sec, "tree", []byte("left"), s.Nh())
			x = leftChild(x)
		} else {
			sec = s.ExpandWithLabel(sec, "tree", []byte("right"), s.Nh())
			x = rightChild(x)
		}
	}
	return sec
}

type ratchetPoint struct {
	gen uint32
	sec []byte
}

var (
	ratchetMu    sync.Mutex
	ratchetCache = map[string][]ratchetPoint{}
)

const ratchetStep = 64

// RatchetKey returns key and nonce of a generation. Some ratchet states are
// kept, to save time.
func RatchetKey(s *Suite, leafSecret []byte, label string, gen uint32) (key, nonce []byte) {
	ck := fmt.Sprintf("%d/%s/%s", s.ID, label, leafSecret)
	start := uint32(0)
	var sec []byte
	ratchetMu.Lock()
	if pts := ratchetCache[ck]; gen >= ratchetStep && len(pts) > 0 {
		p := pts[min(int(gen/ratchetStep), len(pts))-1]
		start, sec = p.gen, p.sec
	}
	ratchetMu.Unlock()
	if sec == nil {
		sec = s.ExpandWithLabel(leafSecret, label, nil, s.Nh())
	}
	for i := start; ; i++ {
		if i > 0 && i%ratchetStep == 0 && i <= 1<<16 {
			ratchetMu.Lock()
			if len(ratchetCache) > 2000 {
				ratchetCache = map[string][]ratchetPoint{}
			}
			if pts := ratchetCache[ck]; uint32(len(pts)) == i/ratchetStep-1 {
				ratchetCache[ck] = append(pts, ratchetPoint{i, sec})
			}
			ratchetMu.Unlock()
		}
		ctx := binary.BigEndian.AppendUint32(nil, i)
		if i == gen {
			return s.ExpandWithLabel(sec, "key", ctx, s.Nk), s.ExpandWithLabel(sec, "nonce", ctx, Nn)
		}
		sec = s.ExpandWithLabel(sec, "secret", ctx, s.Nh())
	}
}

func ratchetLabel(ct uint8) string {
	if ct == ContentApp {
		return "application"
	}
	return "handshake"
}

// --- framing ---

// SealOpts customise the protection of a message; all optional.
type SealOpts struct {
	Public       bool
	AAD          []byte
	Pad          int
	PadBytes     []byte // appended as is (hostile)
	Gen          *uint32
	Leaf         *uint32 // sender data leaf index (hostile)
	RatchetLeaf  *uint32 // leaf whose ratchet encrypts (hostile)
	RatchetLabel string
	Guard        []byte
	SenderData   []byte // full plaintext override (hostile)
	SDMod        func([]byte) []byte
	SDSecret     []byte
	Content      func(*FramedContent)
	SigKey       []byte
	SigCtx       func(*GroupContext)
	SigWire      uint16
	SigLabel     string
	Auth         func(*AuthContent)
	MemTag       func([]byte) []byte
	MemKey       []byte
	Plain        func([]byte) []byte
	Private      func(*PrivateMessage)
}

func (g *Group) sign(ac *AuthContent, o *SealOpts) {
	ctx := g.Ctx
	if o.SigCtx != nil {
		o.SigCtx(&ctx)
	}
	key := g.SigPriv
	if o.SigKey != nil {
		key = o.SigKey
	}
	label := "FramedContentTBS"
	if o.SigLabel != "" {
		label = o.SigLabel
	}
	w := ac.Wire
	if o.SigWire != 0 {
		ac.Wire = o.SigWire
	}
	ac.Auth.Sig = g.S.SignWithLabel(key, label, ac.TBS(&ctx))
	ac.Wire = w
}

func (g *Group) seal(ac *AuthContent, o *SealOpts) []byte {
	s := g.S
	c := &ac.Content
	if ac.Wire == WirePublic {
		m := &PublicMessage{Content: *c, Auth: ac.Auth}
		var w W
		w.Raw(ac.TBS(&g.Ctx))
		ac.Auth.Put(&w, c.Type)
		k := g.secret("membership")
		if o.MemKey != nil {
			k = o.MemKey
		}
		m.MemTag = s.MAC(k, w.B)
		if o.MemTag != nil {
			m.MemTag = o.MemTag(m.MemTag)
		}
		return (&Message{Wire: WirePublic, Public: m}).Bytes()
	}
	leaf := c.Sender.Index
	rl := leaf
	if o.RatchetLeaf != nil {
		rl = *o.RatchetLeaf
	}
	lbl := ratchetLabel(c.Type)
	gen := &g.HSGen
	if c.Type == ContentApp {
		gen = &g.AppGen
	}
	gv := *gen
	if o.Gen != nil {
		gv = *o.Gen
	}
	if gv >= *gen {
		*gen = gv + 1
	}
	if o.RatchetLabel != "" {
		lbl = o.RatchetLabel
	}
	kg := gv
	if kg > 1<<21 {
		kg = 0 // hostile: the real key would take hours to compute
	}
	key, nonce := RatchetKey(s, TreeSecret(s, g.secret("encryption"), len(g.Tree), rl), lbl, kg)
	guard := Bytes(g.Rng, 4)
	if o.Guard != nil {
		guard = o.Guard
	}
	for i := range guard {
		nonce[i] ^= guard[i]
	}
	var w W
	c.putBody(&w)
	ac.Auth.Put(&w, c.Type)
	w.Raw(make([]byte, o.Pad))
	w.Raw(o.PadBytes)
	plain := w.B
	if o.Plain != nil {
		plain = o.Plain(plain)
	}
	var aad W
	aad.Vec(c.GroupID)
	aad.U64(c.Epoch)
	aad.U8(c.Type)
	sdAAD := append([]byte{}, aad.B...)
	aad.Vec(c.AAD)
	m := &PrivateMessage{GroupID: c.GroupID, Epoch: c.Epoch, Type: c.Type, AAD: c.AAD}
	m.Ciphertext = s.AEAD(key).Seal(nil, nonce, plain, aad.B)
	var sd W
	if o.Leaf != nil {
		leaf = *o.Leaf
	}
	sd.U32(leaf)
	sd.U32(gv)
	sd.Raw(guard)
	if o.SenderData != nil {
		sd.B = o.SenderData
	}
	if o.SDMod != nil {
		sd.B = o.SDMod(sd.B)
	}
	sds := g.secret("sender data")
	if o.SDSecret != nil {
		sds = o.SDSecret
	}
	k, n := senderDataKey(s, sds, m.Ciphertext)
	m.EncSenderData = s.AEAD(k).Seal(nil, n, sd.B, sdAAD)
	if o.Private != nil {
		o.Private(m)
	}
	return (&Message{Wire: WirePrivate, Private: m}).Bytes()
}

func senderDataKey(s *Suite, secret, ct []byte) (key, nonce []byte) {
	sample := ct
	if len(sample) > s.Nh() {
		sample = sample[:s.Nh()]
	}
	return s.ExpandWithLabel(secret, "key", sample, s.Nk), s.ExpandWithLabel(secret, "nonce", sample, Nn)
}

// SenderDataKey exposes the derivation to checks.
func SenderDataKey(s *Suite, secret, ct []byte) (key, nonce []byte) {
	return senderDataKey(s, secret, ct)
}

func (g *Group) content(ct uint8, o *SealOpts) *AuthContent {
	ac := &AuthContent{Wire: WirePrivate}
	if o.Public {
		ac.Wire = WirePublic
	}
	aad := o.AAD
	if aad == nil {
		aad = []byte{}
	}
	ac.Content = FramedContent{GroupID: g.Ctx.GroupID, Epoch: g.Ctx.Epoch,
		Sender: Sender{SenderMember, g.MyLeaf}, AAD: aad, Type: ct}
	return ac
}

func (g *Group) finish(ac *AuthContent, o *SealOpts) []byte {
	if o.Content != nil {
		o.Content(&ac.Content)
	}
	g.sign(ac, o)
	if o.Auth != nil {
		o.Auth(ac)
	}
	return g.seal(ac, o)
}

// App creates an application message.
func (g *Group) App(data []byte, o *SealOpts) []byte {
	if o == nil {
		o = &SealOpts{}
	}
	ac := g.content(ContentApp, o)
	ac.Content.App = data
	return g.finish(ac, o)
}

// Propose sends a proposal and remembers it. It returns message and reference.
func (g *Group) Propose(p *Proposal, o *SealOpts) (raw, ref []byte) {
	if o == nil {
		o = &SealOpts{}
	}
	ac := g.content(ContentProposal, o)
	ac.Content.Proposal = p
	raw = g.finish(ac, o)
	ref = g.S.RefHash("MLS 1.0 Proposal Reference", ac.Bytes())
	g.Pending = append(g.Pending, Pending{ref, p, ac.Content.Sender.Index})
	return raw, ref
}

// NewUpdateLeaf makes a fresh leaf for an Update proposal of this member and
// remembers its private key.
func (g *Group) NewUpdateLeaf(pre func(*LeafNode), key []byte, post func(*LeafNode)) *LeafNode {
	l := g.Tree.Leaf(g.MyLeaf).Clone()
	pub, priv := g.S.GenKEM(g.Rng)
	l.EncKey = pub
	l.Source = SrcUpdate
	l.ParentHash = nil
	if pre != nil {
		pre(l)
	}
	if key == nil {
		key = g.SigPriv
	}
	l.Sig = g.S.SignWithLabel(key, "LeafNodeTBS", l.TBS(g.Ctx.GroupID, g.MyLeaf))
	if post != nil {
		post(l)
	}
	g.ownUpdates[string(pub)] = priv
	return l
}

// Event is the outcome of processing a message.
type Event struct {
	Type   uint8
	Sender uint32
	Wire   uint16
	App    []byte
	AAD    []byte
	Gen    uint32
	Guard  []byte
	Ref    []byte
	Commit *Commit
	Props  []*Proposal
	Adds   []uint32
}

// Open authenticates a message without applying it.
func (g *Group) Open(raw []byte) (*AuthContent, *Event, error) {
	m, err := ParseMessage(raw)
	if err != nil {
		return nil, nil, err
	}
	s := g.S
	ev := &Event{Wire: m.Wire}
	ac := &AuthContent{Wire: m.Wire}
	usedKey := ""
	switch {
	case m.Public != nil:
		ac.Content, ac.Auth = m.Public.Content, m.Public.Auth
		if ac.Content.Type == ContentApp {
			return nil, nil, errors.New("refmls: public application data")
		}
		if ac.Content.Sender.Type != SenderMember {
			return nil, nil, errors.New("refmls: unsupported sender type")
		}
	case m.Private != nil:
		p := m.Private
		if !bytes.Equal(p.GroupID, g.Ctx.GroupID) || p.Epoch != g.Ctx.Epoch {
			return nil, nil, errors.New("refmls: wrong group or epoch")
		}
		var aad W
		aad.Vec(p.GroupID)
		aad.U64(p.Epoch)
		aad.U8(p.Type)
		k, n := senderDataKey(s, g.secret("sender data"), p.Ciphertext)
		sd, err := s.AEAD(k).Open(nil, n, p.EncSenderData, aad.B)
		if err != nil {
			return nil, nil, err
		}
		r := &R{B: sd}
		leaf, gen := r.U32(), r.U32()
		guard := append([]byte{}, r.take(4)...)
		if err := r.End(); err != nil {
			return nil, nil, err
		}
		if g.Tree.Leaf(leaf) == nil {
			return nil, nil, errors.New("refmls: sender leaf blank")
		}
		if gen > 1<<21 {
			return nil, nil, errors.New("refmls: generation too far ahead")
		}
		usedKey = fmt.Sprintf("%s/%d/%d", ratchetLabel(p.Type), leaf, gen)
		if g.used[usedKey] && !g.Lenient {
			return nil, nil, errors.New("refmls: generation already used")
		}
		key, nonce := RatchetKey(s, TreeSecret(s, g.secret("encryption"), len(g.Tree), leaf), ratchetLabel(p.Type), gen)
		for i := range guard {
			nonce[i] ^= guard[i]
		}
		aad.Vec(p.AAD)
		pt, err := s.AEAD(key).Open(nil, nonce, p.Ciphertext, aad.B)
		if err != nil {
			return nil, nil, err
		}
		ac.Content = FramedContent{GroupID: p.GroupID, Epoch: p.Epoch,
			Sender: Sender{SenderMember, leaf}, AAD: p.AAD, Type: p.Type}
		r = &R{B: pt}
		ac.Content.getBody(r)
		ac.Auth.Get(r, p.Type)
		if r.Err != nil {
			return nil, nil, r.Err
		}
		for _, b := range r.B {
			if b != 0 {
				return nil, nil, errors.New("refmls: non-zero padding")
			}
		}
		ev.Gen, ev.Guard = gen, guard
	default:
		return nil, nil, errors.New("refmls: not a group message")
	}
	c := &ac.Content
	if !bytes.Equal(c.GroupID, g.Ctx.GroupID) || c.Epoch != g.Ctx.Epoch {
		return nil, nil, errors.New("refmls: wrong group or epoch")
	}
	leaf := g.Tree.Leaf(c.Sender.Index)
	if leaf == nil {
		return nil, nil, errors.New("refmls: sender leaf blank")
	}
	if !s.VerifyWithLabel(leaf.SigKey, "FramedContentTBS", ac.TBS(&g.Ctx), ac.Auth.Sig) {
		return nil, nil, errors.New("refmls: bad message signature")
	}
	if m.Public != nil {
		var w W
		w.Raw(ac.TBS(&g.Ctx))
		ac.Auth.Put(&w, c.Type)
		if !hmac.Equal(s.MAC(g.secret("membership"), w.B), m.Public.MemTag) {
			return nil, nil, errors.New("refmls: bad membership tag")
		}
	}
	if usedKey != "" {
		g.used[usedKey] = true
	}
	ev.Type, ev.Sender, ev.App, ev.AAD = c.Type, c.Sender.Index, c.App, c.AAD
	return ac, ev, nil
}

// Process authenticates, validates and applies a message.
func (g *Group) Process(raw []byte) (*Event, error) {
	ac, ev, err := g.Open(raw)
	if err != nil {
		return nil, err
	}
	switch ac.Content.Type {
	case ContentProposal:
		ev.Ref = g.S.RefHash("MLS 1.0 Proposal Reference", ac.Bytes())
		ev.Props = []*Proposal{ac.Content.Proposal}
		for _, p := range g.Pending {
			if bytes.Equal(p.Ref, ev.Ref) {
				return ev, nil
			}
		}
		g.Pending = append(g.Pending, Pending{ev.Ref, ac.Content.Proposal, ac.Content.Sender.Index})
	case ContentCommit:
		ev.Commit = ac.Content.Commit
		ng, err := g.applyCommit(ac, ev)
		if err != nil {
			return nil, err
		}
		*g = *ng
	}
	return ev, nil
}

func (g *Group) resolve(list []ProposalOrRef, committer uint32) (props []*Proposal, senders []uint32, err error) {
	for _, p := range list {
		if p.Proposal != nil {
			props = append(props, p.Proposal)
			senders = append(senders, committer)
			continue
		}
		ok := false
		for _, q := range g.Pending {
			if bytes.Equal(q.Ref, p.Ref) {
				props = append(props, q.Proposal)
				senders = append(senders, q.Sender)
				ok = true
				break
			}
		}
		if !ok {
			return nil, nil, errors.New("refmls: unknown proposal reference")
		}
	}
	return props, senders, nil
}

func needPath(props []*Proposal) bool {
	if len(props) == 0 {
		return true
	}
	for _, p := range props {
		if p.Type == PropUpdate || p.Type == PropRemove || p.Type == PropExtIni || p.Type == PropGCE {
			return true
		}
	}
	return false
}

func (g *Group) checkList(props []*Proposal, senders []uint32, committer uint32) error {
	touched := map[uint32]bool{}
	addSig := map[string]bool{}
	psk := map[string]bool{}
	gce := false
	for i, p := range props {
		switch p.Type {
		case PropAdd:
			if addSig[string(p.Add.Leaf.SigKey)] {
				return errors.New("refmls: two adds with one signature key")
			}
			addSig[string(p.Add.Leaf.SigKey)] = true
			if err := VerifyKeyPackage(g.S, p.Add, g.Now); err != nil {
				return err
			}
		case PropUpdate:
			if senders[i] == committer {
				return errors.New("refmls: committer's own update")
			}
			if touched[senders[i]] {
				return errors.New("refmls: leaf touched twice")
			}
			touched[senders[i]] = true
			old := g.Tree.Leaf(senders[i])
			if p.Update.Source != SrcUpdate || bytes.Equal(old.EncKey, p.Update.EncKey) {
				return errors.New("refmls: bad update leaf")
			}
			if !g.S.VerifyWithLabel(p.Update.SigKey, "LeafNodeTBS", p.Update.TBS(g.Ctx.GroupID, senders[i]), p.Update.Sig) {
				return errors.New("refmls: bad update leaf signature")
			}
		case PropRemove:
			if p.Removed == committer || g.Tree.Leaf(p.Removed) == nil || touched[p.Removed] {
				return errors.New("refmls: bad remove")
			}
			touched[p.Removed] = true
		case PropPSK:
			k := string(p.PSK.Bytes())
			if psk[k] || len(p.PSK.Nonce) != g.S.Nh() {
				return errors.New("refmls: bad psk")
			}
			if p.PSK.Type == PSKResumption && p.PSK.Usage != 1 {
				return errors.New("refmls: bad resumption psk usage")
			}
			psk[k] = true
		case PropGCE:
			if gce {
				return errors.New("refmls: two group context extensions")
			}
			gce = true
		case PropReInit:
			if len(props) > 1 {
				return errors.New("refmls: reinit with others")
			}
		default:
			return errors.New("refmls: proposal type not allowed")
		}
	}
	return nil
}

// applyProps applies proposals leniently and returns the added leaves.
func applyProps(t *Tree, props []*Proposal, senders []uint32) (adds []uint32) {
	for i, p := range props {
		if p.Type == PropUpdate {
			t.Update(senders[i], p.Update)
		}
	}
	for _, p := range props {
		if p.Type == PropRemove {
			t.Remove(p.Removed)
		}
	}
	for _, p := range props {
		if p.Type == PropAdd {
			adds = append(adds, t.Add(&p.Add.Leaf))
		}
	}
	return adds
}

func (g *Group) pskValues(props []*Proposal) (ids []PSKID, vals [][]byte, err error) {
	for _, p := range props {
		if p.Type != PropPSK {
			continue
		}
		v, err := g.psk(p.PSK)
		if err != nil {
			return nil, nil, err
		}
		ids = append(ids, *p.PSK)
		vals = append(vals, v)
	}
	return ids, vals, nil
}

func (g *Group) psk(id *PSKID) ([]byte, error) {
	var v []byte
	ok := false
	if id.Type == PSKExternal {
		v, ok = g.PSKs[string(id.ID)]
	} else {
		v, ok = g.Resumption[resKey(id.GroupID, id.Epoch)]
	}
	if !ok {
		return nil, errors.New("refmls: unknown psk")
	}
	return v, nil
}

// PSK returns a pre-shared key or nil.
func (g *Group) PSK(id *PSKID) []byte {
	v, _ := g.psk(id)
	return v
}

func exclude(res []int, adds []uint32) []int {
	var out []int
	for _, x := range res {
		skip := false
		for _, a := range adds {
			skip = skip || leafNode(a) == x
		}
		if !skip {
			out = append(out, x)
		}
	}
	return out
}

func (g *Group) applyCommit(ac *AuthContent, ev *Event) (*Group, error) {
	s := g.S
	c := ac.Content.Commit
	me := ac.Content.Sender.Index
	if me == g.MyLeaf && c.Path != nil {
		return nil, errors.New("refmls: own path commits are applied when created")
	}
	props, senders, err := g.resolve(c.Proposals, me)
	if err != nil {
		return nil, err
	}
	ev.Props = props
	if err := g.checkList(props, senders, me); err != nil {
		return nil, err
	}
	if needPath(props) && c.Path == nil {
		return nil, errors.New("refmls: path required")
	}
	for _, p := range props {
		if p.Type == PropRemove && p.Removed == g.MyLeaf {
			return nil, errors.New("refmls: removed from the group")
		}
	}
	n := g.Clone()
	n.Ctx.Epoch++
	adds := applyProps(&n.Tree, props, senders)
	ev.Adds = adds
	n.prunePriv(g)
	for _, p := range props {
		if p.Type == PropGCE {
			n.Ctx.Exts = p.GCE
		}
	}
	for i, p := range props {
		if p.Type == PropUpdate && senders[i] == g.MyLeaf {
			priv := g.ownUpdates[string(p.Update.EncKey)]
			if priv == nil {
				return nil, errors.New("refmls: update of my leaf that is not mine")
			}
			n.Priv = map[int][]byte{leafNode(g.MyLeaf): priv}
		}
	}
	commitSecret := make([]byte, s.Nh())
	if c.Path != nil {
		l := &c.Path.Leaf
		if l.Source != SrcCommit || bytes.Equal(l.EncKey, g.Tree.Leaf(me).EncKey) {
			return nil, errors.New("refmls: bad path leaf")
		}
		keys := make([][]byte, len(c.Path.Nodes))
		for i := range keys {
			keys[i] = c.Path.Nodes[i].EncKey
		}
		for _, x := range n.Tree {
			for _, k := range append(keys, l.EncKey) {
				if x != nil && bytes.Equal(x.EncKey(), k) {
					return nil, errors.New("refmls: path reuses a key of the tree")
				}
			}
		}
		ph, err := n.Tree.SetPath(s, me, keys)
		if err != nil {
			return nil, err
		}
		if !bytes.Equal(ph, l.ParentHash) {
			return nil, errors.New("refmls: parent hash mismatch")
		}
		n.Tree[leafNode(me)] = &Node{Leaf: l}
		n.Ctx.TreeHash = n.Tree.RootHash(s)
		commitSecret, err = n.decryptPath(c.Path, me, adds)
		if err != nil {
			return nil, err
		}
	} else {
		n.Ctx.TreeHash = n.Tree.RootHash(s)
	}
	if err := n.Tree.Verify(s, n.Ctx.GroupID, 0); err != nil {
		return nil, err
	}
	ids, vals, err := g.pskValues(props)
	if err != nil {
		return nil, err
	}
	n.nextEpoch(g, ac, commitSecret, PSKSecret(s, ids, vals))
	if !hmac.Equal(n.ConfTag, ac.Auth.ConfTag) {
		return nil, errors.New("refmls: confirmation tag mismatch")
	}
	return n, nil
}

// prunePriv drops private keys of nodes that are blank now.
func (n *Group) prunePriv(old *Group) {
	for x := range n.Priv {
		if x >= len(n.Tree) || n.Tree[x] == nil {
			delete(n.Priv, x)
		}
	}
}

// nextEpoch runs transcript and key schedule; n.Ctx has the old CTH.
func (n *Group) nextEpoch(g *Group, ac *AuthContent, commitSecret, psk []byte) (welcome []byte) {
	s := n.S
	n.Ctx.CTH = confirmedHash(s, g.Interim, ac)
	n.Joiner = JoinerSecret(s, g.InitSecret, commitSecret, &n.Ctx)
	welcome, epoch := EpochSecrets(s, n.Joiner, psk, &n.Ctx)
	n.setEpoch(epoch)
	n.ConfTag = s.MAC(n.secret("confirm"), n.Ctx.CTH)
	n.Interim = interimHash(s, n.Ctx.CTH, n.ConfTag)
	return welcome
}

func confirmedHash(s *Suite, interim []byte, ac *AuthContent) []byte {
	var w W
	w.U16(ac.Wire)
	ac.Content.Put(&w)
	w.Vec(ac.Auth.Sig)
	return s.H(interim, w.B)
}

// ConfirmedHash exposes the transcript step to checks.
func ConfirmedHash(s *Suite, interim []byte, ac *AuthContent) []byte {
	return confirmedHash(s, interim, ac)
}

// InterimHash exposes the transcript step to checks.
func InterimHash(s *Suite, cth, tag []byte) []byte { return interimHash(s, cth, tag) }

func (n *Group) decryptPath(up *UpdatePath, sender uint32, adds []uint32) ([]byte, error) {
	s := n.S
	path, copath := n.Tree.FilteredPath(sender)
	if len(path) != len(up.Nodes) {
		return nil, errors.New("refmls: path length")
	}
	var secret []byte
	for i := range path {
		res := exclude(n.Tree.Resolution(copath[i]), adds)
		if len(res) != len(up.Nodes[i].Secrets) {
			return nil, errors.New("refmls: wrong number of path ciphertexts")
		}
		if secret != nil {
			secret = s.DeriveSecret(secret, "path")
		} else if inSubtree(copath[i], leafNode(n.MyLeaf)) {
			for j, x := range res {
				priv := n.Priv[x]
				if priv == nil {
					continue
				}
				var err error
				secret, err = s.DecryptWithLabel(priv, "UpdatePathNode", n.Ctx.Bytes(), up.Nodes[i].Secrets[j])
				if err != nil {
					return nil, err
				}
				break
			}
			if secret == nil {
				return nil, errors.New("refmls: no key for path secret")
			}
		}
		if secret != nil {
			pub, priv, err := s.DeriveKP(s.DeriveSecret(secret, "node"))
			if err != nil {
				return nil, err
			}
			if !bytes.Equal(pub, up.Nodes[i].EncKey) {
				return nil, errors.New("refmls: path key mismatch")
			}
			n.Priv[path[i]] = priv
		}
	}
	if secret == nil {
		return nil, errors.New("refmls: not on the path")
	}
	return s.DeriveSecret(secret, "path"), nil
}

// Hooks let a hostile committer break one rule while everything derived
// afterwards stays consistent. All optional.
type Hooks struct {
	Tree        func(*Tree) // after proposals, before the path
	LeafPre     func(*LeafNode)
	LeafKey     []byte
	LeafGID     []byte
	LeafIdx     *uint32
	LeafPost    func(*LeafNode)
	PathKeys    func(pub [][]byte)
	Ctx         func(*GroupContext) // provisional context (path encryption)
	SecretTo    func(node int, secret []byte) []byte
	Path        func(*UpdatePath)
	Commit      func(*Commit)
	CommitSec   func([]byte) []byte
	PSK         func([]byte) []byte
	ConfTag     func([]byte) []byte
	FinalTree   func(*Tree) // after the path: affects hash, tree extension, everything
	GIPre       func(*GroupInfo)
	GIKey       []byte
	GIPost      func(*GroupInfo)
	GIRaw       func([]byte) []byte
	TreeExt     func([]byte) []byte
	Secrets     func(i int, s *GroupSecrets)
	SecretsRaw  func(i int, b []byte) []byte
	Welcome     func(*Welcome)
	NoTree      bool
	ApplyProps  []*Proposal // what the committer itself applies (hostile)
	ApplySender []uint32
	ForcePSKs   bool
	NewSigPriv  []byte
	NewSigPub   []byte
	ExtraGIExts []Extension
}

// CommitOpts describe a commit.
type CommitOpts struct {
	List []ProposalOrRef
	Path bool
	Seal SealOpts
	H    Hooks
}

// CommitResult is a created commit.
type CommitResult struct {
	Raw           []byte
	Welcome       *Welcome // nil without adds
	Next          *Group
	AC            *AuthContent
	Adds          []uint32
	WelcomeSecret []byte
	GI            *GroupInfo
}

// Commit creates a commit; nothing is validated, so that hostile members can
// be played as well.
func (g *Group) Commit(o *CommitOpts) *CommitResult {
	if o == nil {
		o = &CommitOpts{Path: true}
	}
	s := g.S
	h := &o.H
	props, senders, err := g.resolve(o.List, g.MyLeaf)
	if err != nil {
		props, senders = nil, nil
		for _, p := range o.List {
			if p.Proposal != nil {
				props = append(props, p.Proposal)
				senders = append(senders, g.MyLeaf)
			}
		}
	}
	if h.ApplyProps != nil {
		props, senders = h.ApplyProps, h.ApplySender
	}
	n := g.Clone()
	n.Ctx.Epoch++
	adds := applyProps(&n.Tree, props, senders)
	for _, p := range props {
		if p.Type == PropGCE {
			n.Ctx.Exts = p.GCE
		}
	}
	n.prunePriv(g)
	if h.Tree != nil {
		h.Tree(&n.Tree)
	}
	c := &Commit{Proposals: o.List}
	commitSecret := make([]byte, s.Nh())
	pathSecrets := map[int][]byte{}
	if o.Path {
		me := leafNode(n.MyLeaf)
		encPub, encPriv := s.GenKEM(g.Rng)
		for _, p := range DirectPath(me, len(n.Tree)) {
			n.Tree[p] = nil
			delete(n.Priv, p)
		}
		path, copath := n.Tree.FilteredPath(n.MyLeaf)
		sec := Bytes(g.Rng, s.Nh())
		var secs, pubs [][]byte
		for _, p := range path {
			pub, priv, err := s.DeriveKP(s.DeriveSecret(sec, "node"))
			if err != nil {
				panic(err)
			}
			secs = append(secs, sec)
			pubs = append(pubs, pub)
			pathSecrets[p] = sec
			n.Priv[p] = priv
			sec = s.DeriveSecret(sec, "path")
		}
		commitSecret = sec
		if h.PathKeys != nil {
			h.PathKeys(pubs)
		}
		ph, err := n.Tree.SetPath(s, n.MyLeaf, pubs)
		if err != nil {
			panic(err)
		}
		leaf := g.Tree.Leaf(g.MyLeaf).Clone()
		leaf.EncKey = encPub
		leaf.Source = SrcCommit
		leaf.ParentHash = ph
		if h.NewSigPriv != nil {
			leaf.SigKey = h.NewSigPub
			n.SigPriv = h.NewSigPriv
		}
		n.Priv[me] = encPriv
		if h.LeafPre != nil {
			h.LeafPre(leaf)
		}
		key := n.SigPriv
		if h.LeafKey != nil {
			key = h.LeafKey
		}
		gid, idx := g.Ctx.GroupID, g.MyLeaf
		if h.LeafGID != nil {
			gid = h.LeafGID
		}
		if h.LeafIdx != nil {
			idx = *h.LeafIdx
		}
		leaf.Sig = s.SignWithLabel(key, "LeafNodeTBS", leaf.TBS(gid, idx))
		if h.LeafPost != nil {
			h.LeafPost(leaf)
		}
		n.Tree[me] = &Node{Leaf: leaf}
		n.Ctx.TreeHash = n.Tree.RootHash(s)
		pctx := n.Ctx
		if h.Ctx != nil {
			h.Ctx(&pctx)
		}
		c.Path = &UpdatePath{Leaf: *leaf}
		for i := range path {
			un := UpdatePathNode{EncKey: pubs[i]}
			for _, x := range exclude(n.Tree.Resolution(copath[i]), adds) {
				ps := secs[i]
				if h.SecretTo != nil {
					ps = h.SecretTo(x, ps)
				}
				ct, err := s.EncryptWithLabel(n.Tree[x].EncKey(), "UpdatePathNode", pctx.Bytes(), ps)
				if err != nil {
					ct = HPKECt{Kem: []byte{1}, Ct: []byte{2}}
				}
				un.Secrets = append(un.Secrets, ct)
			}
			c.Path.Nodes = append(c.Path.Nodes, un)
		}
		if h.Path != nil {
			h.Path(c.Path)
		}
	}
	if h.FinalTree != nil {
		h.FinalTree(&n.Tree)
	}
	n.Ctx.TreeHash = n.Tree.RootHash(s)
	if h.Commit != nil {
		h.Commit(c)
	}
	if h.CommitSec != nil {
		commitSecret = h.CommitSec(commitSecret)
	}
	ac := g.content(ContentCommit, &o.Seal)
	ac.Content.Commit = c
	if o.Seal.Content != nil {
		o.Seal.Content(&ac.Content)
	}
	g.sign(ac, &o.Seal)
	if o.Seal.Auth != nil {
		o.Seal.Auth(ac)
	}
	ids, vals, err := g.pskValues(props)
	if err != nil {
		ids, vals = nil, nil
	}
	psk := PSKSecret(s, ids, vals)
	if h.PSK != nil {
		psk = h.PSK(psk)
	}
	welcomeSecret := n.nextEpoch(g, ac, commitSecret, psk)
	if h.ConfTag != nil {
		// The interim hash covers the tag as sent.
		n.ConfTag = h.ConfTag(n.ConfTag)
		n.Interim = interimHash(s, n.Ctx.CTH, n.ConfTag)
	}
	ac.Auth.ConfTag = n.ConfTag
	res := &CommitResult{Next: n, AC: ac, Adds: adds, WelcomeSecret: welcomeSecret}
	res.Raw = g.seal(ac, &o.Seal)
	if len(adds) == 0 {
		return res
	}
	gi := &GroupInfo{Ctx: n.Ctx, ConfTag: n.ConfTag, Signer: n.MyLeaf}
	tree := n.Tree.Bytes()
	if h.TreeExt != nil {
		tree = h.TreeExt(tree)
	}
	gi.Exts = append(gi.Exts, h.ExtraGIExts...)
	if !h.NoTree {
		gi.Exts = append(gi.Exts, Extension{2, tree})
	}
	if h.GIPre != nil {
		h.GIPre(gi)
	}
	key := n.SigPriv
	if h.GIKey != nil {
		key = h.GIKey
	}
	gi.Sig = s.SignWithLabel(key, "GroupInfoTBS", gi.TBS())
	if h.GIPost != nil {
		h.GIPost(gi)
	}
	res.GI = gi
	var w W
	gi.Put(&w)
	raw := w.B
	if h.GIRaw != nil {
		raw = h.GIRaw(raw)
	}
	wel := &Welcome{Suite: s.ID}
	wel.EncGroupInfo = SealGroupInfo(s, welcomeSecret, raw)
	j := 0
	for _, p := range props {
		if p.Type != PropAdd {
			continue
		}
		gs := GroupSecrets{Joiner: n.Joiner, PSKs: ids}
		if o.Path {
			gs.HasPath = true
			gs.PathSecret = pathSecrets[commonAnc(leafNode(adds[j]), leafNode(n.MyLeaf), len(n.Tree))]
		}
		if h.Secrets != nil {
			h.Secrets(j, &gs)
		}
		var w W
		gs.Put(&w)
		b := w.B
		if h.SecretsRaw != nil {
			b = h.SecretsRaw(j, b)
		}
		ct, err := s.EncryptWithLabel(p.Add.InitKey, "Welcome", wel.EncGroupInfo, b)
		if err != nil {
			ct = HPKECt{[]byte{1}, []byte{2}}
		}
		wel.Secrets = append(wel.Secrets, EncGroupSecrets{s.KPRef(p.Add), ct})
		j++
	}
	if h.Welcome != nil {
		h.Welcome(wel)
	}
	res.Welcome = wel
	return res
}

// SealGroupInfo encrypts an encoded GroupInfo.
func SealGroupInfo(s *Suite, welcomeSecret, raw []byte) []byte {
	key := s.ExpandWithLabel(welcomeSecret, "key", nil, s.Nk)
	nonce := s.ExpandWithLabel(welcomeSecret, "nonce", nil, Nn)
	return s.AEAD(key).Seal(nil, nonce, raw, nil)
}

// JoinOpts customise Join.
type JoinOpts struct {
	Tree []byte
	PSKs map[string][]byte
	Now  uint64
	Rng  *rand.Rand
	// Resumption PSKs by group and epoch (as kept by another Group)
	Resumption map[string][]byte
}

// OpenWelcome decrypts a Welcome without judging its contents.
func OpenWelcome(w *Welcome, m *Member, o *JoinOpts) (*GroupSecrets, *GroupInfo, []byte, error) {
	s := m.S
	if w.Suite != s.ID {
		return nil, nil, nil, errors.New("refmls: welcome suite")
	}
	ref := s.KPRef(&m.KP)
	var sec *EncGroupSecrets
	for i := range w.Secrets {
		if bytes.Equal(w.Secrets[i].Ref, ref) {
			sec = &w.Secrets[i]
			break
		}
	}
	if sec == nil {
		return nil, nil, nil, errors.New("refmls: no secrets for me")
	}
	pt, err := s.DecryptWithLabel(m.InitPriv, "Welcome", w.EncGroupInfo, sec.Ct)
	if err != nil {
		return nil, nil, nil, err
	}
	var gs GroupSecrets
	r := &R{B: pt}
	gs.Get(r)
	if err := r.End(); err != nil {
		return nil, nil, nil, err
	}
	var vals [][]byte
	for i := range gs.PSKs {
		id := &gs.PSKs[i]
		var v []byte
		ok := false
		if id.Type == PSKExternal {
			v, ok = o.PSKs[string(id.ID)]
		} else {
			v, ok = o.Resumption[resKey(id.GroupID, id.Epoch)]
		}
		if !ok {
			return nil, nil, nil, errors.New("refmls: unknown psk in welcome")
		}
		vals = append(vals, v)
	}
	psk := PSKSecret(s, gs.PSKs, vals)
	ws := s.DeriveSecret(s.Extract(gs.Joiner, psk), "welcome")
	key := s.ExpandWithLabel(ws, "key", nil, s.Nk)
	nonce := s.ExpandWithLabel(ws, "nonce", nil, Nn)
	raw, err := s.AEAD(key).Open(nil, nonce, w.EncGroupInfo, nil)
	if err != nil {
		return nil, nil, nil, err
	}
	var gi GroupInfo
	r = &R{B: raw}
	gi.Get(r)
	if err := r.End(); err != nil {
		return nil, nil, nil, err
	}
	return &gs, &gi, psk, nil
}

// Join processes a Welcome with full verification.
func Join(w *Welcome, m *Member, o *JoinOpts) (*Group, error) {
	s := m.S
	gs, gi, psk, err := OpenWelcome(w, m, o)
	if err != nil {
		return nil, err
	}
	if gi.Ctx.Suite != s.ID {
		return nil, errors.New("refmls: group info suite")
	}
	raw := o.Tree
	if raw == nil {
		for _, e := range gi.Exts {
			if e.Type == 2 {
				raw = e.Data
				break
			}
		}
	}
	if raw == nil {
		return nil, errors.New("refmls: no ratchet tree")
	}
	g := &Group{S: s, Ctx: gi.Ctx, SigPriv: m.SigPriv, Priv: map[int][]byte{}, Rng: o.Rng, Now: o.Now,
		PSKs: o.PSKs, ConfTag: gi.ConfTag, Joiner: gs.Joiner}
	if o.Resumption != nil {
		g.Resumption = map[string][]byte{}
		for k, v := range o.Resumption {
			g.Resumption[k] = v
		}
	}
	r := &R{B: raw}
	g.Tree.Get(r)
	if err := r.End(); err != nil {
		return nil, err
	}
	signer := g.Tree.Leaf(gi.Signer)
	if signer == nil {
		return nil, errors.New("refmls: signer leaf blank")
	}
	if !s.VerifyWithLabel(signer.SigKey, "GroupInfoTBS", gi.TBS(), gi.Sig) {
		return nil, errors.New("refmls: group info signature")
	}
	if !bytes.Equal(g.Tree.RootHash(s), gi.Ctx.TreeHash) {
		return nil, errors.New("refmls: tree hash")
	}
	if err := g.Tree.Verify(s, gi.Ctx.GroupID, o.Now); err != nil {
		return nil, err
	}
	found := false
	var w1 W
	m.KP.Leaf.Put(&w1)
	for _, li := range g.Tree.Members() {
		var w2 W
		g.Tree.Leaf(li).Put(&w2)
		if bytes.Equal(w1.B, w2.B) {
			g.MyLeaf, found = li, true
		}
	}
	if !found {
		return nil, errors.New("refmls: own leaf not in tree")
	}
	g.Priv[leafNode(g.MyLeaf)] = m.EncPriv
	if gs.HasPath {
		if gi.Signer == g.MyLeaf {
			return nil, errors.New("refmls: path secret from myself")
		}
		x := commonAnc(leafNode(g.MyLeaf), leafNode(gi.Signer), len(g.Tree))
		sec := gs.PathSecret
		first := true
		for ; x >= 0; x = ParentOf(x, len(g.Tree)) {
			n := g.Tree[x]
			if n == nil {
				if first {
					return nil, errors.New("refmls: path secret for a blank node")
				}
				continue
			}
			if !first {
				sec = s.DeriveSecret(sec, "path")
			}
			first = false
			pub, priv, err := s.DeriveKP(s.DeriveSecret(sec, "node"))
			if err != nil {
				return nil, err
			}
			if !bytes.Equal(pub, n.EncKey()) {
				return nil, errors.New("refmls: path secret mismatch")
			}
			g.Priv[x] = priv
		}
	}
	_, epoch := EpochSecrets(s, gs.Joiner, psk, &g.Ctx)
	g.setEpoch(epoch)
	if !hmac.Equal(s.MAC(g.secret("confirm"), g.Ctx.CTH), gi.ConfTag) {
		return nil, errors.New("refmls: confirmation tag")
	}
	g.Interim = interimHash(s, g.Ctx.CTH, gi.ConfTag)
	return g, nil
}
