// Package refmls is an independent implementation of RFC 9420 used as a
// monitor: it takes part in groups next to the library under test and judges
// what the library emits and accepts. It is written from the RFC and shares no
// code with the library.
package refmls

import (
	"encoding/binary"
	"errors"
	"fmt"
)

var errShort = errors.New("refmls: short input")

// W is an append-only encoder.
type W struct{ B []byte }

func (w *W) U8(v uint8) { w.B = append(w.B, Mut.at("u8", []byte{v})...) }
func (w *W) U16(v uint16) {
	w.B = append(w.B, Mut.at("u16", binary.BigEndian.AppendUint16(nil, v))...)
}
func (w *W) U32(v uint32) {
	w.B = append(w.B, Mut.at("u32", binary.BigEndian.AppendUint32(nil, v))...)
}
func (w *W) U64(v uint64) {
	w.B = append(w.B, Mut.at("u64", binary.BigEndian.AppendUint64(nil, v))...)
}
func (w *W) Raw(b []byte) { w.B = append(w.B, b...) }
func (w *W) Varint(n int) { w.B = append(w.B, Mut.at("len", appendVarint(nil, n))...) }
func (w *W) Vec(b []byte) {
	b = Mut.at("data", b)
	w.Varint(len(b))
	w.Raw(b)
}
func (w *W) Sub(f func(w *W)) {
	var s W
	f(&s)
	b := Mut.at("list", s.B)
	w.Varint(len(b))
	w.Raw(b)
}

func appendVarint(b []byte, n int) []byte {
	switch {
	case n < 64:
		return append(b, uint8(n))
	case n < 16384:
		return binary.BigEndian.AppendUint16(b, 0x4000|uint16(n))
	case n < 1<<30:
		return binary.BigEndian.AppendUint32(b, 0x80000000|uint32(n))
	}
	panic("refmls: varint too large")
}

// Mutator replaces one primitive of an encoding. Enclosing length prefixes are
// computed from what it wrote, so that only this primitive is wrong.
type Mutator struct {
	Site int    // which primitive
	N    int    // primitives seen so far
	Kind string // kind of the replaced one: u8, u16, u32, u64, len, data or list
	Do   func(kind string, b []byte) []byte
}

// Mut is in effect for every encoding while it is set.
var Mut *Mutator

func (m *Mutator) at(kind string, b []byte) []byte {
	if m == nil {
		return b
	}
	m.N++
	if m.N-1 != m.Site {
		return b
	}
	m.Kind = kind
	return m.Do(kind, b)
}

func (w *W) U16s(v []uint16) {
	w.Sub(func(w *W) {
		for _, x := range v {
			w.U16(x)
		}
	})
}

// R is a strict decoder with a sticky error.
type R struct {
	B   []byte
	Err error
}

func (r *R) fail(err error) {
	if r.Err == nil {
		r.Err = err
	}
	r.B = nil
}
func (r *R) take(n int) []byte {
	if r.Err != nil || n > len(r.B) || n < 0 {
		r.fail(errShort)
		return nil
	}
	b := r.B[:n:n]
	r.B = r.B[n:]
	return b
}
func (r *R) U8() uint8 {
	if b := r.take(1); b != nil {
		return b[0]
	}
	return 0
}
func (r *R) U16() uint16 {
	if b := r.take(2); b != nil {
		return binary.BigEndian.Uint16(b)
	}
	return 0
}
func (r *R) U32() uint32 {
	if b := r.take(4); b != nil {
		return binary.BigEndian.Uint32(b)
	}
	return 0
}
func (r *R) U64() uint64 {
	if b := r.take(8); b != nil {
		return binary.BigEndian.Uint64(b)
	}
	return 0
}
func (r *R) Varint() int {
	first := r.U8()
	if r.Err != nil {
		return 0
	}
	switch first >> 6 {
	case 0:
		return int(first)
	case 1:
		v := int(first&0x3f)<<8 | int(r.U8())
		if r.Err == nil && v < 64 {
			r.fail(errors.New("refmls: non-minimal varint"))
		}
		return v
	case 2:
		b := r.take(3)
		if b == nil {
			return 0
		}
		v := int(first&0x3f)<<24 | int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if v < 16384 {
			r.fail(errors.New("refmls: non-minimal varint"))
		}
		return v
	}
	r.fail(errors.New("refmls: bad varint prefix"))
	return 0
}
func (r *R) Vec() []byte {
	n := r.Varint()
	b := r.take(n)
	if r.Err != nil {
		return nil
	}
	return append([]byte{}, b...)
}
func (r *R) Sub(f func(r *R)) {
	n := r.Varint()
	b := r.take(n)
	if r.Err != nil {
		return
	}
	s := &R{B: b}
	for len(s.B) > 0 && s.Err == nil {
		f(s)
	}
	if s.Err != nil {
		r.fail(s.Err)
	}
}
func (r *R) U16s() []uint16 {
	var out []uint16
	r.Sub(func(r *R) { out = append(out, r.U16()) })
	return out
}
func (r *R) Opt() bool {
	switch r.U8() {
	case 0:
		return false
	case 1:
		return true
	}
	r.fail(errors.New("refmls: bad presence octet"))
	return false
}
func (r *R) End() error {
	if r.Err != nil {
		return r.Err
	}
	if len(r.B) != 0 {
		return fmt.Errorf("refmls: %d trailing bytes", len(r.B))
	}
	return nil
}

const (
	CredBasic = 1
	CredX509  = 2
)

type Credential struct {
	Type     uint16
	Identity []byte
	Certs    [][]byte
}

func (c *Credential) Put(w *W) {
	w.U16(c.Type)
	switch c.Type {
	case CredBasic:
		w.Vec(c.Identity)
	case CredX509:
		w.Sub(func(w *W) {
			for _, x := range c.Certs {
				w.Vec(x)
			}
		})
	default: // raw
		w.Raw(c.Identity)
	}
}
func (c *Credential) Get(r *R) {
	*c = Credential{Type: r.U16()}
	switch c.Type {
	case CredBasic:
		c.Identity = r.Vec()
	case CredX509:
		r.Sub(func(r *R) { c.Certs = append(c.Certs, r.Vec()) })
	default:
		r.fail(errors.New("refmls: unknown credential type"))
	}
}

type Capabilities struct{ Versions, Suites, Extensions, Proposals, Credentials []uint16 }

func (c *Capabilities) Put(w *W) {
	w.U16s(c.Versions)
	w.U16s(c.Suites)
	w.U16s(c.Extensions)
	w.U16s(c.Proposals)
	w.U16s(c.Credentials)
}
func (c *Capabilities) Get(r *R) {
	c.Versions = r.U16s()
	c.Suites = r.U16s()
	c.Extensions = r.U16s()
	c.Proposals = r.U16s()
	c.Credentials = r.U16s()
}

type Extension struct {
	Type uint16
	Data []byte
}

func putExts(w *W, e []Extension) {
	w.Sub(func(w *W) {
		for _, x := range e {
			w.U16(x.Type)
			w.Vec(x.Data)
		}
	})
}
func getExts(r *R) []Extension {
	var out []Extension
	r.Sub(func(r *R) {
		t := r.U16()
		out = append(out, Extension{t, r.Vec()})
	})
	return out
}

const (
	SrcKeyPackage = 1
	SrcUpdate     = 2
	SrcCommit     = 3
)

type LeafNode struct {
	EncKey, SigKey      []byte
	Cred                Credential
	Caps                Capabilities
	Source              uint8
	NotBefore, NotAfter uint64
	ParentHash          []byte
	Exts                []Extension
	Sig                 []byte
}

func (l *LeafNode) putBase(w *W) {
	w.Vec(l.EncKey)
	w.Vec(l.SigKey)
	l.Cred.Put(w)
	l.Caps.Put(w)
	w.U8(l.Source)
	switch l.Source {
	case SrcKeyPackage:
		w.U64(l.NotBefore)
		w.U64(l.NotAfter)
	case SrcCommit:
		w.Vec(l.ParentHash)
	}
	putExts(w, l.Exts)
}
func (l *LeafNode) Put(w *W) { l.putBase(w); w.Vec(l.Sig) }
func (l *LeafNode) Get(r *R) {
	*l = LeafNode{}
	l.EncKey = r.Vec()
	l.SigKey = r.Vec()
	l.Cred.Get(r)
	l.Caps.Get(r)
	l.Source = r.U8()
	switch l.Source {
	case SrcKeyPackage:
		l.NotBefore = r.U64()
		l.NotAfter = r.U64()
	case SrcUpdate:
	case SrcCommit:
		l.ParentHash = r.Vec()
	default:
		r.fail(errors.New("refmls: bad leaf node source"))
	}
	l.Exts = getExts(r)
	l.Sig = r.Vec()
}

// TBS returns the signed content of the leaf.
func (l *LeafNode) TBS(groupID []byte, idx uint32) []byte {
	var w W
	l.putBase(&w)
	if l.Source == SrcUpdate || l.Source == SrcCommit {
		w.Vec(groupID)
		w.U32(idx)
	}
	return w.B
}

func (l *LeafNode) Clone() *LeafNode {
	var w W
	l.Put(&w)
	c := new(LeafNode)
	r := R{B: w.B}
	c.Get(&r)
	if r.End() != nil {
		// not decodable (hostile value): shallow copy
		cc := *l
		return &cc
	}
	return c
}

type KeyPackage struct {
	Version, Suite uint16
	InitKey        []byte
	Leaf           LeafNode
	Exts           []Extension
	Sig            []byte
}

func (k *KeyPackage) TBS() []byte {
	var w W
	w.U16(k.Version)
	w.U16(k.Suite)
	w.Vec(k.InitKey)
	k.Leaf.Put(&w)
	putExts(&w, k.Exts)
	return w.B
}
func (k *KeyPackage) Put(w *W) { w.Raw(k.TBS()); w.Vec(k.Sig) }
func (k *KeyPackage) Get(r *R) {
	*k = KeyPackage{}
	k.Version = r.U16()
	if r.Err == nil && k.Version != 1 {
		r.fail(errors.New("refmls: bad version"))
	}
	k.Suite = r.U16()
	k.InitKey = r.Vec()
	k.Leaf.Get(r)
	k.Exts = getExts(r)
	k.Sig = r.Vec()
}
func (k *KeyPackage) Bytes() []byte {
	var w W
	k.Put(&w)
	return w.B
}
func (k *KeyPackage) Clone() *KeyPackage {
	c := new(KeyPackage)
	r := R{B: k.Bytes()}
	c.Get(&r)
	if r.End() != nil {
		cc := *k
		return &cc
	}
	return c
}

// MsgBytes returns the key package wrapped in an MLSMessage.
func (k *KeyPackage) MsgBytes() []byte {
	var w W
	w.U16(1)
	w.U16(WireKeyPackage)
	k.Put(&w)
	return w.B
}

// ParseKeyPackage decodes an MLSMessage holding a key package.
func ParseKeyPackage(raw []byte) (*KeyPackage, error) {
	m, err := ParseMessage(raw)
	if err != nil {
		return nil, err
	}
	if m.KeyPackage == nil {
		return nil, errors.New("refmls: not a key package")
	}
	return m.KeyPackage, nil
}

type ParentNode struct {
	EncKey, ParentHash []byte
	Unmerged           []uint32
}

func (p *ParentNode) Put(w *W) {
	w.Vec(p.EncKey)
	w.Vec(p.ParentHash)
	w.Sub(func(w *W) {
		for _, x := range p.Unmerged {
			w.U32(x)
		}
	})
}
func (p *ParentNode) Get(r *R) {
	*p = ParentNode{}
	p.EncKey = r.Vec()
	p.ParentHash = r.Vec()
	r.Sub(func(r *R) { p.Unmerged = append(p.Unmerged, r.U32()) })
}

// Node is a leaf or parent node; nil pointers in a Tree are blank nodes.
type Node struct {
	Leaf   *LeafNode
	Parent *ParentNode
}

func (n *Node) Put(w *W) {
	if n.Leaf != nil {
		w.U8(1)
		n.Leaf.Put(w)
	} else {
		w.U8(2)
		n.Parent.Put(w)
	}
}
func (n *Node) Get(r *R) {
	*n = Node{}
	switch r.U8() {
	case 1:
		n.Leaf = new(LeafNode)
		n.Leaf.Get(r)
	case 2:
		n.Parent = new(ParentNode)
		n.Parent.Get(r)
	default:
		r.fail(errors.New("refmls: bad node type"))
	}
}
func (n *Node) EncKey() []byte {
	if n.Leaf != nil {
		return n.Leaf.EncKey
	}
	return n.Parent.EncKey
}

type Tree []*Node

// Put encodes the tree without its trailing blank nodes.
func (t Tree) Put(w *W) {
	end := len(t)
	for end > 0 && t[end-1] == nil {
		end--
	}
	t.PutRaw(w, end)
}

// PutRaw encodes exactly the first end nodes.
func (t Tree) PutRaw(w *W, end int) {
	w.Sub(func(w *W) {
		for _, n := range t[:end] {
			if n == nil {
				w.U8(0)
			} else {
				w.U8(1)
				n.Put(w)
			}
		}
	})
}
func (t Tree) Bytes() []byte {
	var w W
	t.Put(&w)
	return w.B
}

// ErrShape is returned for a decodable list of nodes that is not a tree.
var ErrShape = errors.New("refmls: tree is empty or a node type does not match its position")

// Get decodes a tree and checks the shape rules of RFC 9420 section 12.4.3.3.
func (t *Tree) Get(r *R) {
	*t = nil
	r.Sub(func(r *R) {
		var n *Node
		if r.Opt() {
			n = new(Node)
			n.Get(r)
			if r.Err == nil && (n.Leaf != nil) != (len(*t)%2 == 0) {
				r.fail(ErrShape)
			}
		}
		*t = append(*t, n)
	})
	if r.Err != nil {
		return
	}
	if len(*t) == 0 {
		r.fail(ErrShape)
		return
	}
	if (*t)[len(*t)-1] == nil {
		r.fail(errors.New("refmls: tree ends in a blank node"))
		return
	}
	for !isFullWidth(len(*t)) {
		*t = append(*t, nil)
	}
}

func isFullWidth(n int) bool { return n > 0 && (n+1)&n == 0 }

type HPKECt struct{ Kem, Ct []byte }

func (h *HPKECt) Put(w *W) { w.Vec(h.Kem); w.Vec(h.Ct) }
func (h *HPKECt) Get(r *R) { h.Kem = r.Vec(); h.Ct = r.Vec() }

type UpdatePathNode struct {
	EncKey  []byte
	Secrets []HPKECt
}

type UpdatePath struct {
	Leaf  LeafNode
	Nodes []UpdatePathNode
}

func (u *UpdatePath) Put(w *W) {
	u.Leaf.Put(w)
	w.Sub(func(w *W) {
		for i := range u.Nodes {
			w.Vec(u.Nodes[i].EncKey)
			w.Sub(func(w *W) {
				for j := range u.Nodes[i].Secrets {
					u.Nodes[i].Secrets[j].Put(w)
				}
			})
		}
	})
}
func (u *UpdatePath) Get(r *R) {
	*u = UpdatePath{}
	u.Leaf.Get(r)
	r.Sub(func(r *R) {
		var n UpdatePathNode
		n.EncKey = r.Vec()
		r.Sub(func(r *R) {
			var h HPKECt
			h.Get(r)
			n.Secrets = append(n.Secrets, h)
		})
		u.Nodes = append(u.Nodes, n)
	})
}

const (
	PSKExternal   = 1
	PSKResumption = 2
)

type PSKID struct {
	Type    uint8
	ID      []byte
	Usage   uint8
	GroupID []byte
	Epoch   uint64
	Nonce   []byte
}

func (p *PSKID) Put(w *W) {
	w.U8(p.Type)
	switch p.Type {
	case PSKExternal:
		w.Vec(p.ID)
	case PSKResumption:
		w.U8(p.Usage)
		w.Vec(p.GroupID)
		w.U64(p.Epoch)
	}
	w.Vec(p.Nonce)
}
func (p *PSKID) Get(r *R) {
	*p = PSKID{Type: r.U8()}
	switch p.Type {
	case PSKExternal:
		p.ID = r.Vec()
	case PSKResumption:
		p.Usage = r.U8()
		if r.Err == nil && (p.Usage < 1 || p.Usage > 3) {
			r.fail(errors.New("refmls: bad psk usage"))
		}
		p.GroupID = r.Vec()
		p.Epoch = r.U64()
	default:
		r.fail(errors.New("refmls: bad psk type"))
	}
	p.Nonce = r.Vec()
}
func (p *PSKID) Bytes() []byte { var w W; p.Put(&w); return w.B }

const (
	PropAdd    = 1
	PropUpdate = 2
	PropRemove = 3
	PropPSK    = 4
	PropReInit = 5
	PropExtIni = 6
	PropGCE    = 7
)

type ReInit struct {
	GroupID        []byte
	Version, Suite uint16
	Exts           []Extension
}

type Proposal struct {
	Type    uint16
	Add     *KeyPackage
	Update  *LeafNode
	Removed uint32
	PSK     *PSKID
	ReInit  *ReInit
	ExtInit []byte
	GCE     []Extension
	Raw     []byte // body of other types
}

func (p *Proposal) Put(w *W) { w.U16(p.Type); p.PutBody(w) }

// PutBody encodes what follows the type.
func (p *Proposal) PutBody(w *W) {
	switch p.Type {
	case PropAdd:
		p.Add.Put(w)
	case PropUpdate:
		p.Update.Put(w)
	case PropRemove:
		w.U32(p.Removed)
	case PropPSK:
		p.PSK.Put(w)
	case PropReInit:
		w.Vec(p.ReInit.GroupID)
		w.U16(p.ReInit.Version)
		w.U16(p.ReInit.Suite)
		putExts(w, p.ReInit.Exts)
	case PropExtIni:
		w.Vec(p.ExtInit)
	case PropGCE:
		putExts(w, p.GCE)
	default:
		w.Raw(p.Raw)
	}
}
func (p *Proposal) Get(r *R) {
	*p = Proposal{Type: r.U16()}
	p.GetBody(r)
}

// GetBody decodes what follows the type.
func (p *Proposal) GetBody(r *R) {
	switch p.Type {
	case PropAdd:
		p.Add = new(KeyPackage)
		p.Add.Get(r)
	case PropUpdate:
		p.Update = new(LeafNode)
		p.Update.Get(r)
	case PropRemove:
		p.Removed = r.U32()
	case PropPSK:
		p.PSK = new(PSKID)
		p.PSK.Get(r)
	case PropReInit:
		p.ReInit = &ReInit{}
		p.ReInit.GroupID = r.Vec()
		p.ReInit.Version = r.U16()
		p.ReInit.Suite = r.U16()
		p.ReInit.Exts = getExts(r)
	case PropExtIni:
		p.ExtInit = r.Vec()
	case PropGCE:
		p.GCE = getExts(r)
	default:
		r.fail(errors.New("refmls: unknown proposal type"))
	}
}

type ProposalOrRef struct {
	Proposal *Proposal
	Ref      []byte
}

type Commit struct {
	Proposals []ProposalOrRef
	Path      *UpdatePath
}

func (c *Commit) Put(w *W) {
	w.Sub(func(w *W) {
		for _, p := range c.Proposals {
			if p.Proposal != nil {
				w.U8(1)
				p.Proposal.Put(w)
			} else {
				w.U8(2)
				w.Vec(p.Ref)
			}
		}
	})
	if c.Path == nil {
		w.U8(0)
	} else {
		w.U8(1)
		c.Path.Put(w)
	}
}
func (c *Commit) Get(r *R) {
	*c = Commit{}
	r.Sub(func(r *R) {
		switch r.U8() {
		case 1:
			p := new(Proposal)
			p.Get(r)
			c.Proposals = append(c.Proposals, ProposalOrRef{Proposal: p})
		case 2:
			c.Proposals = append(c.Proposals, ProposalOrRef{Ref: r.Vec()})
		default:
			r.fail(errors.New("refmls: bad proposal-or-ref type"))
		}
	})
	if r.Opt() {
		c.Path = new(UpdatePath)
		c.Path.Get(r)
	}
}

const (
	WirePublic     = 1
	WirePrivate    = 2
	WireWelcome    = 3
	WireGroupInfo  = 4
	WireKeyPackage = 5

	ContentApp      = 1
	ContentProposal = 2
	ContentCommit   = 3

	SenderMember            = 1
	SenderExternal          = 2
	SenderNewMemberProposal = 3
	SenderNewMemberCommit   = 4
)

type Sender struct {
	Type  uint8
	Index uint32
}

type FramedContent struct {
	GroupID  []byte
	Epoch    uint64
	Sender   Sender
	AAD      []byte
	Type     uint8
	App      []byte
	Proposal *Proposal
	Commit   *Commit
}

func (c *FramedContent) putBody(w *W) {
	switch c.Type {
	case ContentApp:
		w.Vec(c.App)
	case ContentProposal:
		c.Proposal.Put(w)
	case ContentCommit:
		c.Commit.Put(w)
	}
}
func (c *FramedContent) getBody(r *R) {
	switch c.Type {
	case ContentApp:
		c.App = r.Vec()
	case ContentProposal:
		c.Proposal = new(Proposal)
		c.Proposal.Get(r)
	case ContentCommit:
		c.Commit = new(Commit)
		c.Commit.Get(r)
	default:
		r.fail(errors.New("refmls: bad content type"))
	}
}
func (c *FramedContent) Put(w *W) {
	w.Vec(c.GroupID)
	w.U64(c.Epoch)
	w.U8(c.Sender.Type)
	if c.Sender.Type == SenderMember || c.Sender.Type == SenderExternal {
		w.U32(c.Sender.Index)
	}
	w.Vec(c.AAD)
	w.U8(c.Type)
	c.putBody(w)
}
func (c *FramedContent) Get(r *R) {
	*c = FramedContent{}
	c.GroupID = r.Vec()
	c.Epoch = r.U64()
	c.Sender.Type = r.U8()
	switch c.Sender.Type {
	case SenderMember, SenderExternal:
		c.Sender.Index = r.U32()
	case SenderNewMemberProposal, SenderNewMemberCommit:
	default:
		r.fail(errors.New("refmls: bad sender type"))
	}
	c.AAD = r.Vec()
	c.Type = r.U8()
	c.getBody(r)
}

type AuthData struct{ Sig, ConfTag []byte }

func (a *AuthData) Put(w *W, ct uint8) {
	w.Vec(a.Sig)
	if ct == ContentCommit {
		w.Vec(a.ConfTag)
	}
}
func (a *AuthData) Get(r *R, ct uint8) {
	*a = AuthData{Sig: r.Vec()}
	if ct == ContentCommit {
		a.ConfTag = r.Vec()
	}
}

type AuthContent struct {
	Wire    uint16
	Content FramedContent
	Auth    AuthData
}

func (a *AuthContent) Bytes() []byte {
	var w W
	w.U16(a.Wire)
	a.Content.Put(&w)
	a.Auth.Put(&w, a.Content.Type)
	return w.B
}
func (a *AuthContent) Get(r *R) {
	*a = AuthContent{Wire: r.U16()}
	a.Content.Get(r)
	a.Auth.Get(r, a.Content.Type)
}

// TBS returns FramedContentTBS for ctx (may be nil for external senders).
func (a *AuthContent) TBS(ctx *GroupContext) []byte {
	var w W
	w.U16(1)
	w.U16(a.Wire)
	a.Content.Put(&w)
	if a.Content.Sender.Type == SenderMember || a.Content.Sender.Type == SenderNewMemberCommit {
		ctx.Put(&w)
	}
	return w.B
}

type PublicMessage struct {
	Content FramedContent
	Auth    AuthData
	MemTag  []byte
}

func (m *PublicMessage) Put(w *W) {
	m.Content.Put(w)
	m.Auth.Put(w, m.Content.Type)
	if m.Content.Sender.Type == SenderMember {
		w.Vec(m.MemTag)
	}
}
func (m *PublicMessage) Get(r *R) {
	*m = PublicMessage{}
	m.Content.Get(r)
	m.Auth.Get(r, m.Content.Type)
	if m.Content.Sender.Type == SenderMember {
		m.MemTag = r.Vec()
	}
}

type PrivateMessage struct {
	GroupID       []byte
	Epoch         uint64
	Type          uint8
	AAD           []byte
	EncSenderData []byte
	Ciphertext    []byte
}

func (m *PrivateMessage) Put(w *W) {
	w.Vec(m.GroupID)
	w.U64(m.Epoch)
	w.U8(m.Type)
	w.Vec(m.AAD)
	w.Vec(m.EncSenderData)
	w.Vec(m.Ciphertext)
}
func (m *PrivateMessage) Get(r *R) {
	*m = PrivateMessage{}
	m.GroupID = r.Vec()
	m.Epoch = r.U64()
	m.Type = r.U8()
	if r.Err == nil && (m.Type < 1 || m.Type > 3) {
		r.fail(errors.New("refmls: bad content type"))
	}
	m.AAD = r.Vec()
	m.EncSenderData = r.Vec()
	m.Ciphertext = r.Vec()
}

type GroupContext struct {
	Version, Suite uint16
	GroupID        []byte
	Epoch          uint64
	TreeHash       []byte
	CTH            []byte
	Exts           []Extension
}

func (c *GroupContext) Put(w *W) {
	w.U16(c.Version)
	w.U16(c.Suite)
	w.Vec(c.GroupID)
	w.U64(c.Epoch)
	w.Vec(c.TreeHash)
	w.Vec(c.CTH)
	putExts(w, c.Exts)
}
func (c *GroupContext) Get(r *R) {
	*c = GroupContext{}
	c.Version = r.U16()
	if r.Err == nil && c.Version != 1 {
		r.fail(errors.New("refmls: bad version"))
	}
	c.Suite = r.U16()
	c.GroupID = r.Vec()
	c.Epoch = r.U64()
	c.TreeHash = r.Vec()
	c.CTH = r.Vec()
	c.Exts = getExts(r)
}
func (c *GroupContext) Bytes() []byte { var w W; c.Put(&w); return w.B }

type GroupInfo struct {
	Ctx     GroupContext
	Exts    []Extension
	ConfTag []byte
	Signer  uint32
	Sig     []byte
}

func (g *GroupInfo) TBS() []byte {
	var w W
	g.Ctx.Put(&w)
	putExts(&w, g.Exts)
	w.Vec(g.ConfTag)
	w.U32(g.Signer)
	return w.B
}
func (g *GroupInfo) Put(w *W) { w.Raw(g.TBS()); w.Vec(g.Sig) }
func (g *GroupInfo) Get(r *R) {
	*g = GroupInfo{}
	g.Ctx.Get(r)
	g.Exts = getExts(r)
	g.ConfTag = r.Vec()
	g.Signer = r.U32()
	g.Sig = r.Vec()
}

type GroupSecrets struct {
	Joiner     []byte
	HasPath    bool
	PathSecret []byte
	PSKs       []PSKID
}

func (g *GroupSecrets) Put(w *W) {
	w.Vec(g.Joiner)
	if g.HasPath {
		w.U8(1)
		w.Vec(g.PathSecret)
	} else {
		w.U8(0)
	}
	w.Sub(func(w *W) {
		for i := range g.PSKs {
			g.PSKs[i].Put(w)
		}
	})
}
func (g *GroupSecrets) Get(r *R) {
	*g = GroupSecrets{}
	g.Joiner = r.Vec()
	if r.Opt() {
		g.HasPath = true
		g.PathSecret = r.Vec()
	}
	r.Sub(func(r *R) {
		var p PSKID
		p.Get(r)
		g.PSKs = append(g.PSKs, p)
	})
}

type EncGroupSecrets struct {
	Ref []byte
	Ct  HPKECt
}

type Welcome struct {
	Suite        uint16
	Secrets      []EncGroupSecrets
	EncGroupInfo []byte
}

func (m *Welcome) Put(w *W) {
	w.U16(m.Suite)
	w.Sub(func(w *W) {
		for i := range m.Secrets {
			w.Vec(m.Secrets[i].Ref)
			m.Secrets[i].Ct.Put(w)
		}
	})
	w.Vec(m.EncGroupInfo)
}
func (m *Welcome) Get(r *R) {
	*m = Welcome{Suite: r.U16()}
	r.Sub(func(r *R) {
		var s EncGroupSecrets
		s.Ref = r.Vec()
		s.Ct.Get(r)
		m.Secrets = append(m.Secrets, s)
	})
	m.EncGroupInfo = r.Vec()
}
func (m *Welcome) MsgBytes() []byte {
	return (&Message{Wire: WireWelcome, Welcome: m}).Bytes()
}

type Message struct {
	Wire       uint16
	Public     *PublicMessage
	Private    *PrivateMessage
	Welcome    *Welcome
	GroupInfo  *GroupInfo
	KeyPackage *KeyPackage
}

func (m *Message) Bytes() []byte {
	var w W
	w.U16(1)
	w.U16(m.Wire)
	switch m.Wire {
	case WirePublic:
		m.Public.Put(&w)
	case WirePrivate:
		m.Private.Put(&w)
	case WireWelcome:
		m.Welcome.Put(&w)
	case WireGroupInfo:
		m.GroupInfo.Put(&w)
	case WireKeyPackage:
		m.KeyPackage.Put(&w)
	}
	return w.B
}

func ParseMessage(raw []byte) (*Message, error) {
	r := &R{B: raw}
	if v := r.U16(); r.Err == nil && v != 1 {
		return nil, errors.New("refmls: bad version")
	}
	m := &Message{Wire: r.U16()}
	if r.Err != nil {
		return nil, r.Err
	}
	switch m.Wire {
	case WirePublic:
		m.Public = new(PublicMessage)
		m.Public.Get(r)
	case WirePrivate:
		m.Private = new(PrivateMessage)
		m.Private.Get(r)
	case WireWelcome:
		m.Welcome = new(Welcome)
		m.Welcome.Get(r)
	case WireGroupInfo:
		m.GroupInfo = new(GroupInfo)
		m.GroupInfo.Get(r)
	case WireKeyPackage:
		m.KeyPackage = new(KeyPackage)
		m.KeyPackage.Get(r)
	default:
		return nil, errors.New("refmls: bad wire format")
	}
	if err := r.End(); err != nil {
		return nil, err
	}
	return m, nil
}

// ParseWelcome decodes an MLSMessage holding a Welcome.
func ParseWelcome(raw []byte) (*Welcome, error) {
	m, err := ParseMessage(raw)
	if err != nil {
		return nil, err
	}
	if m.Welcome == nil {
		return nil, errors.New("refmls: not a welcome")
	}
	return m.Welcome, nil
}
