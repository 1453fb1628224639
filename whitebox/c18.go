// Laid over the library when the monitors of C18 are built; see bin/check.sh.

package mls

import (
	"fmt"
	"time"
)

func VerifExpand(cs uint16, secret []byte, label string, context []byte, n uint16) ([]byte, error) {
	return CipherSuite(cs).expandWithLabel(secret, []byte(label), context, n)
}

func VerifDerive(cs uint16, secret []byte, label string) ([]byte, error) {
	return CipherSuite(cs).deriveSecret(secret, []byte(label))
}

func VerifRef(cs uint16, label string, value []byte) ([]byte, error) {
	return CipherSuite(cs).refHash([]byte(label), value)
}

func verifContext(raw []byte) *groupContext {
	ctx := new(groupContext)
	if err := unmarshal(raw, ctx); err != nil {
		panic(fmt.Sprintf("group context: %v", err))
	}
	return ctx
}

func VerifJoiner(ctx, init, commit []byte) ([]byte, error) {
	return verifContext(ctx).extractJoinerSecret(init, commit)
}

func VerifEpoch(ctx, joiner, psk []byte) ([]byte, error) {
	return verifContext(ctx).extractEpochSecret(joiner, psk)
}

func VerifWelcome(cs uint16, joiner, psk []byte) ([]byte, error) {
	return extractWelcomeSecret(CipherSuite(cs), joiner, psk)
}

func VerifEpochLabels() map[string]string {
	return map[string]string{
		"init":           string(secretLabelInit),
		"sender data":    string(secretLabelSenderData),
		"encryption":     string(secretLabelEncryption),
		"exporter":       string(secretLabelExporter),
		"external":       string(secretLabelExternal),
		"confirm":        string(secretLabelConfirm),
		"membership":     string(secretLabelMembership),
		"resumption":     string(secretLabelResumption),
		"authentication": string(secretLabelAuthentication),
	}
}

func VerifExporter(cs uint16, secret []byte, label string, context []byte, n uint16) ([]byte, error) {
	return deriveExporter(CipherSuite(cs), secret, []byte(label), context, n)
}

func VerifPSKSecret(cs uint16, ids, psks [][]byte) ([]byte, error) {
	var l []preSharedKeyID
	for _, raw := range ids {
		var id preSharedKeyID
		if err := unmarshal(raw, &id); err != nil {
			panic(fmt.Sprintf("PSK ID: %v", err))
		}
		l = append(l, id)
	}
	return extractPSKSecret(CipherSuite(cs), l, psks)
}

// VerifTranscript returns the confirmed and the interim transcript hash, and
// whether the confirmation tag is right for the key.
func VerifTranscript(cs uint16, ac, interim, key []byte) (confirmed, next []byte, ok bool, err error) {
	var c authenticatedContent
	if err := unmarshal(ac, &c); err != nil {
		panic(fmt.Sprintf("authenticated content: %v", err))
	}
	confirmed, err = c.confirmedTranscriptHashInput().hash(CipherSuite(cs), interim)
	if err != nil {
		return nil, nil, false, err
	}
	next, err = nextInterimTranscriptHash(CipherSuite(cs), confirmed, c.auth.confirmationTag)
	return confirmed, next, c.auth.verifyConfirmationTag(CipherSuite(cs), key, confirmed), err
}

func VerifSenderData(cs uint16, secret, ciphertext []byte) (key, nonce []byte, err error) {
	key, err = expandSenderDataKey(CipherSuite(cs), secret, ciphertext)
	if err == nil {
		nonce, err = expandSenderDataNonce(CipherSuite(cs), secret, ciphertext)
	}
	return key, nonce, err
}

// VerifSecretTree calls f with the keys of generations of a ratchet.
func VerifSecretTree(cs uint16, leaves uint32, secret []byte) (func(leaf uint32, application bool, gens int, f func(gen uint32, key, nonce []byte)) error, error) {
	t, err := deriveSecretTree(CipherSuite(cs), numLeaves(leaves), secret)
	if err != nil {
		return nil, err
	}
	return func(leaf uint32, application bool, gens int, f func(gen uint32, key, nonce []byte)) error {
		label := ratchetLabelHandshake
		if application {
			label = ratchetLabelApplication
		}
		r, err := t.deriveRatchetRoot(CipherSuite(cs), leafIndex(leaf).nodeIndex(), label)
		for i := 0; i < gens && err == nil; i++ {
			var k, n []byte
			if k, err = r.deriveKey(CipherSuite(cs)); err != nil {
				break
			}
			if n, err = r.deriveNonce(CipherSuite(cs)); err != nil {
				break
			}
			f(r.generation, k, n)
			r, err = r.deriveNext(CipherSuite(cs))
		}
		return err
	}, nil
}

func VerifSign(cs uint16, priv []byte, label string, content []byte) ([]byte, error) {
	return CipherSuite(cs).signWithLabel(priv, []byte(label), content)
}

func VerifVerify(cs uint16, pub []byte, label string, content, sig []byte) bool {
	return CipherSuite(cs).verifyWithLabel(pub, []byte(label), content, sig)
}

func VerifSeal(cs uint16, pub []byte, label string, context, plain []byte) (kem, ct []byte, err error) {
	return CipherSuite(cs).encryptWithLabel(pub, []byte(label), context, plain)
}

func VerifOpen(cs uint16, priv []byte, label string, context, kem, ct []byte) ([]byte, error) {
	return CipherSuite(cs).decryptWithLabel(priv, []byte(label), context, kem, ct)
}

func VerifNodeKey(cs uint16, pathSecret, pub []byte) ([]byte, error) {
	return nodePrivFromPathSecret(CipherSuite(cs), pathSecret, pub)
}

func verifNoTime() time.Time { return time.Time{} }

func verifKeys(ids []preSharedKeyID, key func(id []byte) []byte) (psks [][]byte) {
	for i := range ids {
		raw, err := marshal(&ids[i])
		if err != nil {
			panic(fmt.Sprintf("PSK ID: %v", err))
		}
		psks = append(psks, key(raw))
	}
	return psks
}

// VerifJoin joins a group with pre-shared keys.
func VerifJoin(w *Welcome, kpp *KeyPairPackage, key func(id []byte) []byte) (*Group, error) {
	ref, err := kpp.Public.GenerateRef()
	if err != nil {
		return nil, err
	}
	sec, err := w.decryptGroupSecrets(ref, kpp.Private.InitKey)
	if err != nil {
		return nil, err
	}
	if !sec.verifySingleReinitOrBranchPSK() {
		return nil, fmt.Errorf("several reinit or branch keys")
	}
	return groupFromSecrets(w, kpp, sec, &groupFromSecretsOptions{psks: verifKeys(sec.psks, key), now: verifNoTime})
}

// VerifCommit processes a commit with pre-shared keys in a public message.
func VerifCommit(g *Group, raw []byte, key func(id []byte) []byte) error {
	var msg mlsMessage
	if err := unmarshal(raw, &msg); err != nil {
		return err
	}
	ac, err := g.verifyPublicMessage(msg.publicMessage)
	if err != nil {
		return err
	}
	props, _, err := resolveProposals(ac.content.commit.proposals, msg.publicMessage.content.sender.leafIndex, g.pendingProposals)
	if err != nil {
		return err
	}
	var ids []preSharedKeyID
	for _, p := range props {
		if p.proposalType == proposalTypePSK {
			ids = append(ids, p.preSharedKey.psk)
		}
	}
	return g.processCommit(ac, ids, verifKeys(ids, key), verifNoTime)
}

func VerifEpochSecret(g *Group) []byte { return g.epochSecret }
