package refmls

import (
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/hpke"
	crand "crypto/rand"
	"crypto/sha256"
	_ "crypto/sha512"
	"errors"
	"hash"
	"math/rand"
	"sync"

	"golang.org/x/crypto/chacha20poly1305"
)

// Suite is an MLS cipher suite.
type Suite struct {
	ID    uint16
	Hash  crypto.Hash
	kem   hpke.KEM
	kdf   hpke.KDF
	aead  hpke.AEAD
	curve elliptic.Curve // nil: Ed25519
	Nk    int
	chach bool
}

const Nn = 12

var suites = map[uint16]*Suite{
	1: {ID: 1, Hash: crypto.SHA256, kem: hpke.DHKEM(ecdh.X25519()), kdf: hpke.HKDFSHA256(), aead: hpke.AES128GCM(), Nk: 16},
	2: {ID: 2, Hash: crypto.SHA256, kem: hpke.DHKEM(ecdh.P256()), kdf: hpke.HKDFSHA256(), aead: hpke.AES128GCM(), curve: elliptic.P256(), Nk: 16},
	3: {ID: 3, Hash: crypto.SHA256, kem: hpke.DHKEM(ecdh.X25519()), kdf: hpke.HKDFSHA256(), aead: hpke.ChaCha20Poly1305(), Nk: 32, chach: true},
	5: {ID: 5, Hash: crypto.SHA512, kem: hpke.DHKEM(ecdh.P521()), kdf: hpke.HKDFSHA512(), aead: hpke.AES256GCM(), curve: elliptic.P521(), Nk: 32},
	7: {ID: 7, Hash: crypto.SHA384, kem: hpke.DHKEM(ecdh.P384()), kdf: hpke.HKDFSHA384(), aead: hpke.AES256GCM(), curve: elliptic.P384(), Nk: 32},
	// X448/Ed448 suites: only the symmetric parts are implemented here.
	4: {ID: 4, Hash: crypto.SHA512, kdf: hpke.HKDFSHA512(), aead: hpke.AES256GCM(), Nk: 32},
	6: {ID: 6, Hash: crypto.SHA512, kdf: hpke.HKDFSHA512(), aead: hpke.ChaCha20Poly1305(), Nk: 32, chach: true},
}

// GetSuite returns the suite or nil.
func GetSuite(id uint16) *Suite { return suites[id] }

// Supported are the suites a conforming peer and the library share.
var Supported = []uint16{1, 2, 3, 7}

func (s *Suite) newHash() func() hash.Hash { return s.Hash.New }

func (s *Suite) Nh() int { return s.Hash.Size() }

func (s *Suite) H(parts ...[]byte) []byte {
	h := s.Hash.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (s *Suite) MAC(key []byte, parts ...[]byte) []byte {
	h := hmac.New(s.Hash.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// Extract is HKDF-Extract(salt, ikm).
func (s *Suite) Extract(salt, ikm []byte) []byte {
	b, err := hkdf.Extract(s.newHash(), ikm, salt)
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Suite) ExpandWithLabel(secret []byte, label string, context []byte, length int) []byte {
	var w W
	w.U16(uint16(length))
	w.Vec([]byte("MLS 1.0 " + label))
	w.Vec(context)
	b, err := hkdf.Expand(s.newHash(), secret, string(w.B), length)
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Suite) DeriveSecret(secret []byte, label string) []byte {
	return s.ExpandWithLabel(secret, label, nil, s.Nh())
}

func (s *Suite) RefHash(label string, value []byte) []byte {
	var w W
	w.Vec([]byte(label))
	w.Vec(value)
	return s.H(w.B)
}

func (s *Suite) KPRef(k *KeyPackage) []byte {
	return s.RefHash("MLS 1.0 KeyPackage Reference", k.Bytes())
}

func signContent(label string, content []byte) []byte {
	var w W
	w.Vec([]byte("MLS 1.0 " + label))
	w.Vec(content)
	return w.B
}

// SignWithLabel signs; the private key is an Ed25519 seed or a big-endian scalar.
func (s *Suite) SignWithLabel(priv []byte, label string, content []byte) []byte {
	m := signContent(label, content)
	if s.curve == nil {
		return ed25519.Sign(ed25519.NewKeyFromSeed(priv), m)
	}
	sk, err := s.ecPriv(priv)
	if err != nil {
		panic(err)
	}
	sig, err := ecdsa.SignASN1(crand.Reader, sk, s.H(m))
	if err != nil {
		panic(err)
	}
	return sig
}

func (s *Suite) ecPriv(priv []byte) (*ecdsa.PrivateKey, error) {
	n := (s.curve.Params().BitSize + 7) / 8
	if len(priv) > n {
		return nil, errors.New("refmls: private key too long")
	}
	full := make([]byte, n)
	copy(full[n-len(priv):], priv)
	return ecdsa.ParseRawPrivateKey(s.curve, full)
}

var verified sync.Map // signatures already found good, to save time

func (s *Suite) VerifyWithLabel(pub []byte, label string, content, sig []byte) bool {
	m := signContent(label, content)
	var w W
	w.U16(s.ID)
	w.Vec(pub)
	w.Vec(m)
	w.Vec(sig)
	k := sha256.Sum256(w.B)
	if _, ok := verified.Load(k); ok {
		return true
	}
	if !s.verify(pub, m, sig) {
		return false
	}
	verified.Store(k, struct{}{})
	return true
}

func (s *Suite) verify(pub, m, sig []byte) bool {
	if s.curve == nil {
		if len(pub) != ed25519.PublicKeySize {
			return false
		}
		return ed25519.Verify(pub, m, sig)
	}
	pk, err := ecdsa.ParseUncompressedPublicKey(s.curve, pub)
	if err != nil {
		return false
	}
	return ecdsa.VerifyASN1(pk, s.H(m), sig)
}

// SigPub returns the public key of a signature private key.
func (s *Suite) SigPub(priv []byte) ([]byte, error) {
	if s.curve == nil {
		if len(priv) != ed25519.SeedSize {
			return nil, errors.New("refmls: bad seed size")
		}
		return []byte(ed25519.NewKeyFromSeed(priv).Public().(ed25519.PublicKey)), nil
	}
	sk, err := s.ecPriv(priv)
	if err != nil {
		return nil, err
	}
	return sk.PublicKey.Bytes()
}

// GenSig draws a signature key pair from rng.
func (s *Suite) GenSig(rng *rand.Rand) (pub, priv []byte) {
	for {
		n := 32
		if s.curve != nil {
			n = (s.curve.Params().BitSize + 7) / 8
		}
		priv = Bytes(rng, n)
		if s.ID == 5 {
			priv[0] &= 1
		}
		p, err := s.SigPub(priv)
		if err == nil {
			return p, priv
		}
	}
}

// DeriveKP is KEM.DeriveKeyPair.
func (s *Suite) DeriveKP(ikm []byte) (pub, priv []byte, err error) {
	k, err := s.kem.DeriveKeyPair(ikm)
	if err != nil {
		return nil, nil, err
	}
	priv, err = k.Bytes()
	return k.PublicKey().Bytes(), priv, err
}

// GenKEM draws an HPKE key pair from rng.
func (s *Suite) GenKEM(rng *rand.Rand) (pub, priv []byte) {
	pub, priv, err := s.DeriveKP(Bytes(rng, 64))
	if err != nil {
		panic(err)
	}
	return pub, priv
}

// kemPriv loads an HPKE private key; leading zero bytes may be missing.
func (s *Suite) kemPriv(priv []byte) (hpke.PrivateKey, error) {
	if s.curve != nil {
		n := (s.curve.Params().BitSize + 7) / 8
		if len(priv) < n {
			full := make([]byte, n)
			copy(full[n-len(priv):], priv)
			priv = full
		}
	}
	return s.kem.NewPrivateKey(priv)
}

// KEMPub returns the public key of an HPKE private key.
func (s *Suite) KEMPub(priv []byte) ([]byte, error) {
	k, err := s.kemPriv(priv)
	if err != nil {
		return nil, err
	}
	return k.PublicKey().Bytes(), nil
}

func (s *Suite) EncryptWithLabel(pub []byte, label string, context, pt []byte) (HPKECt, error) {
	pk, err := s.kem.NewPublicKey(pub)
	if err != nil {
		return HPKECt{}, err
	}
	enc, snd, err := hpke.NewSender(pk, s.kdf, s.aead, signContent(label, context))
	if err != nil {
		return HPKECt{}, err
	}
	ct, err := snd.Seal(nil, pt)
	return HPKECt{enc, ct}, err
}

func (s *Suite) DecryptWithLabel(priv []byte, label string, context []byte, ct HPKECt) ([]byte, error) {
	k, err := s.kemPriv(priv)
	if err != nil {
		return nil, err
	}
	r, err := hpke.NewRecipient(ct.Kem, k, s.kdf, s.aead, signContent(label, context))
	if err != nil {
		return nil, err
	}
	return r.Open(nil, ct.Ct)
}

// AEAD returns the AEAD for a key.
func (s *Suite) AEAD(key []byte) cipher.AEAD {
	if s.chach {
		a, err := chacha20poly1305.New(key)
		if err != nil {
			panic(err)
		}
		return a
	}
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

// Bytes draws n bytes from rng.
func Bytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}
