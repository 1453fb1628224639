package refmls

import "errors"

// Revealed is the inside of a private message, as any member sees it.
type Revealed struct {
	Head  PrivateMessage // without ciphertexts
	Leaf  uint32
	Gen   uint32
	Guard []byte
	Plain []byte

	SD func([]byte) []byte // changes the encoded sender data
}

// Reveal decrypts a private message without judging it.
func (g *Group) Reveal(raw []byte) (*Revealed, error) {
	m, err := ParseMessage(raw)
	if err != nil {
		return nil, err
	}
	p := m.Private
	if p == nil {
		return nil, errors.New("refmls: not private")
	}
	s := g.S
	var aad W
	aad.Vec(p.GroupID)
	aad.U64(p.Epoch)
	aad.U8(p.Type)
	k, n := senderDataKey(s, g.secret("sender data"), p.Ciphertext)
	sd, err := s.AEAD(k).Open(nil, n, p.EncSenderData, aad.B)
	if err != nil {
		return nil, err
	}
	r := &R{B: sd}
	v := &Revealed{Head: *p}
	v.Leaf, v.Gen = r.U32(), r.U32()
	v.Guard = append([]byte{}, r.take(4)...)
	if err := r.End(); err != nil {
		return nil, err
	}
	key, nonce := RatchetKey(s, TreeSecret(s, g.secret("encryption"), len(g.Tree), v.Leaf), ratchetLabel(p.Type), v.Gen)
	for i := range v.Guard {
		nonce[i] ^= v.Guard[i]
	}
	aad.Vec(p.AAD)
	v.Plain, err = s.AEAD(key).Open(nil, nonce, p.Ciphertext, aad.B)
	return v, err
}

// Conceal encrypts what Reveal returned, after changes.
func (g *Group) Conceal(v *Revealed) []byte {
	s := g.S
	key, nonce := RatchetKey(s, TreeSecret(s, g.secret("encryption"), len(g.Tree), v.Leaf), ratchetLabel(v.Head.Type), v.Gen)
	for i := range v.Guard {
		nonce[i] ^= v.Guard[i]
	}
	p := v.Head
	var aad W
	aad.Vec(p.GroupID)
	aad.U64(p.Epoch)
	aad.U8(p.Type)
	sdAAD := append([]byte{}, aad.B...)
	aad.Vec(p.AAD)
	p.Ciphertext = s.AEAD(key).Seal(nil, nonce, v.Plain, aad.B)
	var sd W
	sd.U32(v.Leaf)
	sd.U32(v.Gen)
	sd.Raw(v.Guard)
	if v.SD != nil {
		sd.B = v.SD(sd.B)
	}
	k, n := senderDataKey(s, g.secret("sender data"), p.Ciphertext)
	p.EncSenderData = s.AEAD(k).Seal(nil, n, sd.B, sdAAD)
	return (&Message{Wire: WirePrivate, Private: &p}).Bytes()
}

// Retag computes the membership tag of a changed public message.
func (g *Group) Retag(m *PublicMessage) []byte {
	var w W
	w.Raw((&AuthContent{Wire: WirePublic, Content: m.Content}).TBS(&g.Ctx))
	m.Auth.Put(&w, m.Content.Type)
	m.MemTag = g.S.MAC(g.secret("membership"), w.B)
	return (&Message{Wire: WirePublic, Public: m}).Bytes()
}

// Body is the encoded content and authentication data of a public message as
// they would be encrypted.
func (c *FramedContent) Body(a *AuthData) []byte {
	var w W
	c.putBody(&w)
	a.Put(&w, c.Type)
	return w.B
}

// ReadBody decodes what Body wrote; trailing bytes are ignored.
func (c *FramedContent) ReadBody(b []byte) (*AuthData, error) {
	r := &R{B: b}
	c.getBody(r)
	var a AuthData
	a.Get(r, c.Type)
	return &a, r.Err
}

// WellPadded tells whether b is content of the given type followed by zeros.
func WellPadded(ct uint8, b []byte) bool {
	r := &R{B: b}
	c := FramedContent{Type: ct}
	c.getBody(r)
	var a AuthData
	a.Get(r, ct)
	for _, v := range r.B {
		if v != 0 {
			return false
		}
	}
	return r.Err == nil
}

// SignContent signs content as a member would.
func (g *Group) SignContent(ac *AuthContent, key []byte) []byte {
	return g.S.SignWithLabel(key, "FramedContentTBS", ac.TBS(&g.Ctx))
}
