package checks

import (
	"math/rand"

	"verif.local/harness/refmls"
)

// gen makes arbitrary well-formed structures: every field takes every length
// class, every list every kind of size, every enum every defined value.
type gen struct {
	r   *rand.Rand
	big bool // also very long fields and lists
	n   int  // byte strings made so far
	at  int  // the byte string, counted from one, that has a given length
	len int
}

func (g *gen) bytes() []byte {
	if g.n++; g.n == g.at {
		return refmls.Bytes(g.r, g.len)
	}
	switch g.r.Intn(12) {
	case 0:
		return []byte{}
	case 1:
		return refmls.Bytes(g.r, 1)
	case 2:
		return refmls.Bytes(g.r, 62+g.r.Intn(4))
	case 3:
		return refmls.Bytes(g.r, 120+g.r.Intn(200))
	case 4:
		if g.big && g.r.Intn(3) == 0 {
			return refmls.Bytes(g.r, []int{16382, 16383, 16384, 16385, 40000, 65535, 65536, 70000}[g.r.Intn(8)])
		}
	}
	return refmls.Bytes(g.r, 2+g.r.Intn(40))
}

func (g *gen) count() int {
	switch g.r.Intn(10) {
	case 0, 1, 2:
		return 0
	case 3, 4, 5:
		return 1
	case 6:
		if g.big && g.r.Intn(3) == 0 {
			return 40 + g.r.Intn(300)
		}
	}
	return 2 + g.r.Intn(3)
}

func (g *gen) u16() uint16 {
	switch g.r.Intn(3) {
	case 0:
		return uint16(g.r.Intn(12))
	case 1:
		return []uint16{0x0a0a, 0x1a1a, 0xf000, 0xfffe, 0xffff, 0x00ff, 0x0100}[g.r.Intn(7)]
	}
	return uint16(g.r.Intn(65536))
}

func (g *gen) u32() uint32 {
	switch g.r.Intn(3) {
	case 0:
		return uint32(g.r.Intn(20))
	case 1:
		return []uint32{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 255, 256, 65536}[g.r.Intn(7)]
	}
	return g.r.Uint32()
}

func (g *gen) u64() uint64 {
	switch g.r.Intn(3) {
	case 0:
		return uint64(g.r.Intn(20))
	case 1:
		return []uint64{0, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<32 - 1, 1 << 32}[g.r.Intn(6)]
	}
	return g.r.Uint64()
}

func (g *gen) u16s() []uint16 {
	var out []uint16
	for i := g.count(); i > 0; i-- {
		out = append(out, g.u16())
	}
	return out
}

// exts has no duplicate types.
func (g *gen) exts() []refmls.Extension {
	var out []refmls.Extension
	seen := map[uint16]bool{}
	for i := min(g.count(), 60); i > 0; i-- {
		t := g.u16()
		if seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, refmls.Extension{Type: t, Data: g.bytes()})
	}
	return out
}

func (g *gen) cred() refmls.Credential {
	if g.r.Intn(2) == 0 {
		return refmls.Credential{Type: refmls.CredBasic, Identity: g.bytes()}
	}
	c := refmls.Credential{Type: refmls.CredX509}
	for i := g.count(); i > 0; i-- {
		c.Certs = append(c.Certs, g.bytes())
	}
	return c
}

func (g *gen) leaf() *refmls.LeafNode {
	l := &refmls.LeafNode{EncKey: g.bytes(), SigKey: g.bytes(), Cred: g.cred(),
		Caps:   refmls.Capabilities{Versions: g.u16s(), Suites: g.u16s(), Extensions: g.u16s(), Proposals: g.u16s(), Credentials: g.u16s()},
		Source: uint8(1 + g.r.Intn(3)), Exts: g.exts(), Sig: g.bytes()}
	switch l.Source {
	case refmls.SrcKeyPackage:
		l.NotBefore, l.NotAfter = g.u64(), g.u64()
	case refmls.SrcCommit:
		l.ParentHash = g.bytes()
	}
	return l
}

func (g *gen) keyPackage() *refmls.KeyPackage {
	return &refmls.KeyPackage{Version: 1, Suite: g.u16(), InitKey: g.bytes(), Leaf: *g.leaf(), Exts: g.exts(), Sig: g.bytes()}
}

func (g *gen) parent() *refmls.ParentNode {
	p := &refmls.ParentNode{EncKey: g.bytes(), ParentHash: g.bytes()}
	for i := g.count(); i > 0; i-- {
		p.Unmerged = append(p.Unmerged, g.u32())
	}
	return p
}

// tree has n nodes before the trailing blank ones.
func (g *gen) tree(n int) refmls.Tree {
	t := make(refmls.Tree, n)
	blank := g.r.Intn(4)
	for i := range t {
		switch {
		case i < n-1 && g.r.Intn(4) < blank:
		case i%2 == 0:
			t[i] = &refmls.Node{Leaf: g.leaf()}
		default:
			t[i] = &refmls.Node{Parent: g.parent()}
		}
	}
	return t
}

func (g *gen) ct() refmls.HPKECt { return refmls.HPKECt{Kem: g.bytes(), Ct: g.bytes()} }

func (g *gen) updatePath() *refmls.UpdatePath {
	u := &refmls.UpdatePath{Leaf: *g.leaf()}
	for i := min(g.count(), 60); i > 0; i-- {
		n := refmls.UpdatePathNode{EncKey: g.bytes()}
		for j := min(g.count(), 60); j > 0; j-- {
			n.Secrets = append(n.Secrets, g.ct())
		}
		u.Nodes = append(u.Nodes, n)
	}
	return u
}

func (g *gen) psk() *refmls.PSKID {
	if g.r.Intn(2) == 0 {
		return &refmls.PSKID{Type: refmls.PSKExternal, ID: g.bytes(), Nonce: g.bytes()}
	}
	return &refmls.PSKID{Type: refmls.PSKResumption, Usage: uint8(1 + g.r.Intn(3)), GroupID: g.bytes(), Epoch: g.u64(), Nonce: g.bytes()}
}

func (g *gen) proposal() *refmls.Proposal { return g.proposalOf(uint16(1 + g.r.Intn(7))) }

func (g *gen) proposalOf(t uint16) *refmls.Proposal {
	p := &refmls.Proposal{Type: t}
	switch t {
	case refmls.PropAdd:
		p.Add = g.keyPackage()
	case refmls.PropUpdate:
		p.Update = g.leaf()
	case refmls.PropRemove:
		p.Removed = g.u32()
	case refmls.PropPSK:
		p.PSK = g.psk()
	case refmls.PropReInit:
		p.ReInit = &refmls.ReInit{GroupID: g.bytes(), Version: 1, Suite: g.u16(), Exts: g.exts()}
	case refmls.PropExtIni:
		p.ExtInit = g.bytes()
	case refmls.PropGCE:
		p.GCE = g.exts()
	}
	return p
}

func (g *gen) commit() *refmls.Commit {
	c := new(refmls.Commit)
	for i := min(g.count(), 40); i > 0; i-- {
		if g.r.Intn(2) == 0 {
			c.Proposals = append(c.Proposals, refmls.ProposalOrRef{Proposal: g.proposal()})
		} else {
			c.Proposals = append(c.Proposals, refmls.ProposalOrRef{Ref: g.bytes()})
		}
	}
	if g.r.Intn(2) == 0 {
		c.Path = g.updatePath()
	}
	return c
}

// content is of a kind that may be framed publicly.
func (g *gen) content(app bool) *refmls.FramedContent {
	c := &refmls.FramedContent{GroupID: g.bytes(), Epoch: g.u64(), AAD: g.bytes(), Type: uint8(2 + g.r.Intn(2))}
	if app && g.r.Intn(3) == 0 {
		c.Type = refmls.ContentApp
	}
	c.Sender.Type = refmls.SenderMember
	if c.Type == refmls.ContentProposal {
		c.Sender.Type = []uint8{refmls.SenderMember, refmls.SenderExternal, refmls.SenderNewMemberProposal}[g.r.Intn(3)]
	} else if c.Type == refmls.ContentCommit {
		c.Sender.Type = []uint8{refmls.SenderMember, refmls.SenderNewMemberCommit}[g.r.Intn(2)]
	}
	if c.Sender.Type <= refmls.SenderExternal {
		c.Sender.Index = g.u32()
	}
	switch c.Type {
	case refmls.ContentApp:
		c.App = g.bytes()
	case refmls.ContentProposal:
		c.Proposal = g.proposal()
	case refmls.ContentCommit:
		c.Commit = g.commit()
	}
	return c
}

func (g *gen) auth(ct uint8) refmls.AuthData {
	a := refmls.AuthData{Sig: g.bytes()}
	if ct == refmls.ContentCommit {
		a.ConfTag = g.bytes()
	}
	return a
}

func (g *gen) context() *refmls.GroupContext {
	return &refmls.GroupContext{Version: 1, Suite: g.u16(), GroupID: g.bytes(), Epoch: g.u64(), TreeHash: g.bytes(), CTH: g.bytes(), Exts: g.exts()}
}

func (g *gen) groupInfo() *refmls.GroupInfo {
	return &refmls.GroupInfo{Ctx: *g.context(), Exts: g.exts(), ConfTag: g.bytes(), Signer: g.u32(), Sig: g.bytes()}
}

func (g *gen) secrets() *refmls.GroupSecrets {
	s := &refmls.GroupSecrets{Joiner: g.bytes()}
	if g.r.Intn(2) == 0 {
		s.HasPath, s.PathSecret = true, g.bytes()
	}
	for i := g.count(); i > 0; i-- {
		s.PSKs = append(s.PSKs, *g.psk())
	}
	return s
}

func (g *gen) welcome() *refmls.Welcome {
	w := &refmls.Welcome{Suite: g.u16(), EncGroupInfo: g.bytes()}
	for i := g.count(); i > 0; i-- {
		w.Secrets = append(w.Secrets, refmls.EncGroupSecrets{Ref: g.bytes(), Ct: g.ct()})
	}
	return w
}

func (g *gen) message(wire uint16) *refmls.Message {
	m := &refmls.Message{Wire: wire}
	switch wire {
	case refmls.WirePublic:
		c := g.content(false)
		m.Public = &refmls.PublicMessage{Content: *c, Auth: g.auth(c.Type)}
		if c.Sender.Type == refmls.SenderMember {
			m.Public.MemTag = g.bytes()
		}
	case refmls.WirePrivate:
		m.Private = &refmls.PrivateMessage{GroupID: g.bytes(), Epoch: g.u64(), Type: uint8(1 + g.r.Intn(3)), AAD: g.bytes(), EncSenderData: g.bytes(), Ciphertext: g.bytes()}
	case refmls.WireWelcome:
		m.Welcome = g.welcome()
	case refmls.WireGroupInfo:
		m.GroupInfo = g.groupInfo()
	case refmls.WireKeyPackage:
		m.KeyPackage = g.keyPackage()
	}
	return m
}
