//go:build wb_c18

package checks

import mls "github.com/emersion/go-mls"

func init() {
	wbKDF = &kdfUnderTest{
		expand: mls.VerifExpand, derive: mls.VerifDerive, ref: mls.VerifRef,
		joiner: mls.VerifJoiner, epoch: mls.VerifEpoch, welcome: mls.VerifWelcome, labels: mls.VerifEpochLabels,
		exporter: mls.VerifExporter, psk: mls.VerifPSKSecret, transcript: mls.VerifTranscript,
		senderData: mls.VerifSenderData, tree: mls.VerifSecretTree,
		sign: mls.VerifSign, verify: mls.VerifVerify, seal: mls.VerifSeal, open: mls.VerifOpen, nodeKey: mls.VerifNodeKey,
		join: mls.VerifJoin, commit: mls.VerifCommit, secret: mls.VerifEpochSecret,
	}
}
