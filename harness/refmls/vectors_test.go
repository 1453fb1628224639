package refmls

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"math/rand"
	"os"
	"testing"
)

// The reference implementation is itself checked against the official MLS
// test vectors that ship with the library.

type hb []byte

func (h *hb) UnmarshalJSON(b []byte) error {
	var s *string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if s == nil {
		*h = nil
		return nil
	}
	v, err := hex.DecodeString(*s)
	*h = v
	return err
}

func load(t *testing.T, name string, v any) {
	b, err := os.ReadFile("/repo/testdata/" + name)
	if err != nil {
		t.Skip(err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		t.Fatal(err)
	}
}

func eq(t *testing.T, what string, got, want []byte) {
	t.Helper()
	if !bytes.Equal(got, want) {
		t.Fatalf("%s: got %x want %x", what, got, want)
	}
}

func usable(id uint16) bool { s := GetSuite(id); return s != nil && s.kem != nil }

func TestCryptoBasics(t *testing.T) {
	var v []struct {
		CipherSuite uint16 `json:"cipher_suite"`
		RefHash     struct {
			Label      string
			Value, Out hb
		} `json:"ref_hash"`
		ExpandWithLabel struct {
			Label                string
			Secret, Context, Out hb
			Length               int
		} `json:"expand_with_label"`
		DeriveSecret struct {
			Label       string
			Secret, Out hb
		} `json:"derive_secret"`
		SignWithLabel struct {
			Label                         string
			Priv, Pub, Content, Signature hb
		} `json:"sign_with_label"`
		EncryptWithLabel struct {
			Label                                     string
			Priv, Pub, Context, Plaintext, Ciphertext hb
			KemOutput                                 hb `json:"kem_output"`
		} `json:"encrypt_with_label"`
	}
	load(t, "crypto-basics.json", &v)
	for _, x := range v {
		s := GetSuite(x.CipherSuite)
		eq(t, "refhash", s.RefHash(x.RefHash.Label, x.RefHash.Value), x.RefHash.Out)
		eq(t, "expand", s.ExpandWithLabel(x.ExpandWithLabel.Secret, x.ExpandWithLabel.Label, x.ExpandWithLabel.Context, x.ExpandWithLabel.Length), x.ExpandWithLabel.Out)
		eq(t, "derive", s.DeriveSecret(x.DeriveSecret.Secret, x.DeriveSecret.Label), x.DeriveSecret.Out)
		if !usable(x.CipherSuite) {
			continue
		}
		w := x.SignWithLabel
		if !s.VerifyWithLabel(w.Pub, w.Label, w.Content, w.Signature) {
			t.Fatal("verify")
		}
		pub, err := s.SigPub(w.Priv)
		if err != nil {
			t.Fatal(err)
		}
		eq(t, "sigpub", pub, w.Pub)
		if !s.VerifyWithLabel(w.Pub, w.Label, w.Content, s.SignWithLabel(w.Priv, w.Label, w.Content)) {
			t.Fatal("sign")
		}
		e := x.EncryptWithLabel
		pt, err := s.DecryptWithLabel(e.Priv, e.Label, e.Context, HPKECt{e.KemOutput, e.Ciphertext})
		if err != nil {
			t.Fatal(err)
		}
		eq(t, "decrypt", pt, e.Plaintext)
		ct, err := s.EncryptWithLabel(e.Pub, e.Label, e.Context, e.Plaintext)
		if err != nil {
			t.Fatal(err)
		}
		pt, err = s.DecryptWithLabel(e.Priv, e.Label, e.Context, ct)
		if err != nil {
			t.Fatal(err)
		}
		eq(t, "roundtrip", pt, e.Plaintext)
	}
}

func TestKeySchedule(t *testing.T) {
	var v []struct {
		CipherSuite       uint16 `json:"cipher_suite"`
		GroupID           hb     `json:"group_id"`
		InitialInitSecret hb     `json:"initial_init_secret"`
		Epochs            []struct {
			TreeHash      hb `json:"tree_hash"`
			CommitSecret  hb `json:"commit_secret"`
			PSKSecret     hb `json:"psk_secret"`
			CTH           hb `json:"confirmed_transcript_hash"`
			GroupContext  hb `json:"group_context"`
			JoinerSecret  hb `json:"joiner_secret"`
			WelcomeSecret hb `json:"welcome_secret"`
			InitSecret    hb `json:"init_secret"`
			SenderData    hb `json:"sender_data_secret"`
			Encryption    hb `json:"encryption_secret"`
			ExporterS     hb `json:"exporter_secret"`
			ExternalS     hb `json:"external_secret"`
			Confirmation  hb `json:"confirmation_key"`
			Membership    hb `json:"membership_key"`
			Resumption    hb `json:"resumption_psk"`
			Authenticator hb `json:"epoch_authenticator"`
			Exporter      struct {
				Label           string
				Context, Secret hb
				Length          int
			}
		}
	}
	load(t, "key-schedule.json", &v)
	for _, x := range v {
		s := GetSuite(x.CipherSuite)
		init := []byte(x.InitialInitSecret)
		for i, e := range x.Epochs {
			ctx := GroupContext{Version: 1, Suite: s.ID, GroupID: x.GroupID, Epoch: uint64(i), TreeHash: e.TreeHash, CTH: e.CTH}
			eq(t, "ctx", ctx.Bytes(), e.GroupContext)
			j := JoinerSecret(s, init, e.CommitSecret, &ctx)
			eq(t, "joiner", j, e.JoinerSecret)
			w, ep := EpochSecrets(s, j, e.PSKSecret, &ctx)
			eq(t, "welcome", w, e.WelcomeSecret)
			for l, want := range map[string]hb{"init": e.InitSecret, "sender data": e.SenderData, "encryption": e.Encryption, "exporter": e.ExporterS, "external": e.ExternalS, "confirm": e.Confirmation, "membership": e.Membership, "resumption": e.Resumption, "authentication": e.Authenticator} {
				eq(t, l, s.DeriveSecret(ep, l), want)
			}
			eq(t, "exporter", Exporter(s, e.ExporterS, e.Exporter.Label, e.Exporter.Context, e.Exporter.Length), e.Exporter.Secret)
			init = e.InitSecret
		}
	}
}

func TestPSK(t *testing.T) {
	var v []struct {
		CipherSuite uint16 `json:"cipher_suite"`
		PSKs        []struct {
			ID    hb `json:"psk_id"`
			PSK   hb
			Nonce hb `json:"psk_nonce"`
		}
		PSKSecret hb `json:"psk_secret"`
	}
	load(t, "psk_secret.json", &v)
	for _, x := range v {
		var ids []PSKID
		var vals [][]byte
		for _, p := range x.PSKs {
			ids = append(ids, PSKID{Type: 1, ID: p.ID, Nonce: p.Nonce})
			vals = append(vals, p.PSK)
		}
		eq(t, "psk", PSKSecret(GetSuite(x.CipherSuite), ids, vals), x.PSKSecret)
	}
}

func TestSecretTree(t *testing.T) {
	var v []struct {
		CipherSuite      uint16 `json:"cipher_suite"`
		EncryptionSecret hb     `json:"encryption_secret"`
		SenderData       struct {
			Secret                 hb `json:"sender_data_secret"`
			Ciphertext, Key, Nonce hb
		} `json:"sender_data"`
		Leaves [][]struct {
			Generation uint32
			HK         hb `json:"handshake_key"`
			HN         hb `json:"handshake_nonce"`
			AK         hb `json:"application_key"`
			AN         hb `json:"application_nonce"`
		}
	}
	load(t, "secret-tree.json", &v)
	for _, x := range v {
		s := GetSuite(x.CipherSuite)
		k, n := SenderDataKey(s, x.SenderData.Secret, x.SenderData.Ciphertext)
		eq(t, "sdk", k, x.SenderData.Key)
		eq(t, "sdn", n, x.SenderData.Nonce)
		for li, gens := range x.Leaves {
			sec := TreeSecret(s, x.EncryptionSecret, 2*len(x.Leaves)-1, uint32(li))
			for _, g := range gens {
				k, n := RatchetKey(s, sec, "handshake", g.Generation)
				eq(t, "hk", k, g.HK)
				eq(t, "hn", n, g.HN)
				k, n = RatchetKey(s, sec, "application", g.Generation)
				eq(t, "ak", k, g.AK)
				eq(t, "an", n, g.AN)
			}
		}
	}
}

func TestTranscript(t *testing.T) {
	var v []struct {
		CipherSuite uint16 `json:"cipher_suite"`
		Key         hb     `json:"confirmation_key"`
		AC          hb     `json:"authenticated_content"`
		Before      hb     `json:"interim_transcript_hash_before"`
		CTH         hb     `json:"confirmed_transcript_hash_after"`
		After       hb     `json:"interim_transcript_hash_after"`
	}
	load(t, "transcript-hashes.json", &v)
	for _, x := range v {
		s := GetSuite(x.CipherSuite)
		var ac AuthContent
		r := &R{B: x.AC}
		ac.Get(r)
		if err := r.End(); err != nil {
			t.Fatal(err)
		}
		eq(t, "ac", ac.Bytes(), x.AC)
		c := ConfirmedHash(s, x.Before, &ac)
		eq(t, "cth", c, x.CTH)
		eq(t, "tag", s.MAC(x.Key, c), ac.Auth.ConfTag)
		eq(t, "interim", InterimHash(s, c, ac.Auth.ConfTag), x.After)
	}
}

func TestTreeOps(t *testing.T) {
	var v []struct {
		CipherSuite uint16 `json:"cipher_suite"`
		Proposal    hb
		Sender      uint32 `json:"proposal_sender"`
		Before      hb     `json:"tree_before"`
		After       hb     `json:"tree_after"`
		HB          hb     `json:"tree_hash_before"`
		HA          hb     `json:"tree_hash_after"`
	}
	load(t, "tree-operations.json", &v)
	for _, x := range v {
		s := GetSuite(x.CipherSuite)
		var tr Tree
		r := &R{B: x.Before}
		tr.Get(r)
		if err := r.End(); err != nil {
			t.Fatal(err)
		}
		var p Proposal
		r = &R{B: x.Proposal}
		p.Get(r)
		if err := r.End(); err != nil {
			t.Fatal(err)
		}
		eq(t, "before", tr.RootHash(s), x.HB)
		applyProps(&tr, []*Proposal{&p}, []uint32{x.Sender})
		eq(t, "after", tr.Bytes(), x.After)
		eq(t, "hash after", tr.RootHash(s), x.HA)
	}
}

func TestTreeValidation(t *testing.T) {
	var v []struct {
		CipherSuite uint16 `json:"cipher_suite"`
		Tree        hb
		GroupID     hb   `json:"group_id"`
		Hashes      []hb `json:"tree_hashes"`
		Resolutions [][]int
	}
	load(t, "tree-validation.json", &v)
	for _, x := range v {
		if !usable(x.CipherSuite) {
			continue
		}
		s := GetSuite(x.CipherSuite)
		var tr Tree
		r := &R{B: x.Tree}
		tr.Get(r)
		if err := r.End(); err != nil {
			t.Fatal(err)
		}
		for i := range x.Hashes {
			eq(t, "hash", tr.Hash(s, i, nil), x.Hashes[i])
			res := tr.Resolution(i)
			if len(res) != len(x.Resolutions[i]) {
				t.Fatal("resolution")
			}
			for j := range res {
				if res[j] != x.Resolutions[i][j] {
					t.Fatal("resolution")
				}
			}
		}
		if err := tr.Verify(s, x.GroupID, 0); err != nil {
			t.Fatal(err)
		}
		eq(t, "tree", tr.Bytes(), x.Tree)
	}
}

func TestPassive(t *testing.T) {
	for _, f := range []string{"passive-client-welcome.json", "passive-client-handling-commit.json", "passive-client-random.json"} {
		var v []struct {
			CipherSuite  uint16 `json:"cipher_suite"`
			ExternalPSKs []struct {
				ID  hb `json:"psk_id"`
				PSK hb
			} `json:"external_psks"`
			KP       hb `json:"key_package"`
			SigPriv  hb `json:"signature_priv"`
			EncPriv  hb `json:"encryption_priv"`
			InitPriv hb `json:"init_priv"`
			Welcome  hb
			Tree     hb `json:"ratchet_tree"`
			Auth     hb `json:"initial_epoch_authenticator"`
			Epochs   []struct {
				Proposals []hb
				Commit    hb
				Auth      hb `json:"epoch_authenticator"`
			}
		}
		load(t, f, &v)
		n := 0
		for i, x := range v {
			if !usable(x.CipherSuite) {
				continue
			}
			s := GetSuite(x.CipherSuite)
			kp, err := ParseKeyPackage(x.KP)
			if err != nil {
				t.Fatal(err)
			}
			m := &Member{S: s, KP: *kp, InitPriv: x.InitPriv, EncPriv: x.EncPriv, SigPriv: x.SigPriv}
			w, err := ParseWelcome(x.Welcome)
			if err != nil {
				t.Fatal(err)
			}
			psks := map[string][]byte{}
			for _, p := range x.ExternalPSKs {
				psks[string(p.ID)] = p.PSK
			}
			g, err := Join(w, m, &JoinOpts{Tree: x.Tree, PSKs: psks, Rng: rand.New(rand.NewSource(1))})
			if err != nil {
				t.Fatalf("%s %d: %v", f, i, err)
			}
			eq(t, "auth", g.Secret("authentication"), x.Auth)
			for j, e := range x.Epochs {
				for _, p := range e.Proposals {
					if _, err := g.Process(p); err != nil {
						t.Fatalf("%s %d/%d: %v", f, i, j, err)
					}
				}
				if _, err := g.Process(e.Commit); err != nil {
					t.Fatalf("%s %d/%d: %v", f, i, j, err)
				}
				eq(t, "auth", g.Secret("authentication"), e.Auth)
				n++
			}
			n++
		}
		t.Logf("%s: %d epochs", f, n)
	}
}

func TestMessages(t *testing.T) {
	var v []struct {
		W  hb `json:"mls_welcome"`
		GI hb `json:"mls_group_info"`
		KP hb `json:"mls_key_package"`
		A  hb `json:"public_message_application"`
		P  hb `json:"public_message_proposal"`
		C  hb `json:"public_message_commit"`
		R  hb `json:"private_message"`
	}
	load(t, "messages.json", &v)
	for _, x := range v {
		for _, b := range []hb{x.W, x.GI, x.KP, x.A, x.P, x.C, x.R} {
			m, err := ParseMessage(b)
			if err != nil {
				t.Fatal(err)
			}
			eq(t, "reencode", m.Bytes(), b)
		}
	}
}

// Self-play: a group of reference members stays in agreement.
func TestSelfPlay(t *testing.T) {
	for _, id := range Supported {
		rng := rand.New(rand.NewSource(int64(id)))
		s := GetSuite(id)
		gs := []*Group{Create([]byte("g"), NewMember(s, rng, nil), 3, nil, rng)}
		for step := 0; step < 25; step++ {
			c := gs[rng.Intn(len(gs))]
			o := &CommitOpts{Path: true}
			o.Seal.Public = rng.Intn(2) == 0
			var joiners []*Member
			for rng.Intn(3) > 0 {
				m := NewMember(s, rng, nil)
				joiners = append(joiners, m)
				o.List = append(o.List, ProposalOrRef{Proposal: &Proposal{Type: PropAdd, Add: &m.KP}})
			}
			gone := -1
			if len(gs) > 2 && rng.Intn(3) == 0 {
				gone = rng.Intn(len(gs))
				if gs[gone] == c {
					gone = -1
				} else {
					o.List = append(o.List, ProposalOrRef{Proposal: &Proposal{Type: PropRemove, Removed: gs[gone].MyLeaf}})
				}
			}
			for i, g := range gs {
				if g != c && i != gone && rng.Intn(4) == 0 {
					raw, ref := g.Propose(&Proposal{Type: PropUpdate, Update: g.NewUpdateLeaf(nil, nil, nil)}, &SealOpts{Public: rng.Intn(2) == 0})
					for _, h := range gs {
						if h != g {
							if _, err := h.Process(raw); err != nil {
								t.Fatal(err)
							}
						}
					}
					o.List = append(o.List, ProposalOrRef{Ref: ref})
				}
			}
			if len(joiners) > 0 && gone < 0 && len(o.List) == len(joiners) {
				o.Path = rng.Intn(2) == 0
			}
			res := c.Commit(o)
			var next []*Group
			for i, g := range gs {
				if g == c {
					next = append(next, res.Next)
					continue
				}
				_, err := g.Process(res.Raw)
				if i == gone {
					if err == nil {
						t.Fatal("removed member followed")
					}
					continue
				}
				if err != nil {
					t.Fatalf("suite %d step %d: %v", id, step, err)
				}
				next = append(next, g)
			}
			for _, m := range joiners {
				w, err := ParseWelcome(res.Welcome.MsgBytes())
				if err != nil {
					t.Fatal(err)
				}
				g, err := Join(w, m, &JoinOpts{Rng: rng, Now: now()})
				if err != nil {
					t.Fatalf("join: %v", err)
				}
				next = append(next, g)
			}
			gs = next
			for _, g := range gs {
				eq(t, "epoch", g.EpochSecret, gs[0].EpochSecret)
				raw := g.App([]byte{byte(step)}, nil)
				for _, h := range gs {
					if h == g {
						continue
					}
					ev, err := h.Process(raw)
					if err != nil || !bytes.Equal(ev.App, []byte{byte(step)}) {
						t.Fatal(err)
					}
				}
				if step%8 != 0 {
					break
				}
			}
		}
	}
}
