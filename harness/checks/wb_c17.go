//go:build wb_c17

package checks

import mls "github.com/emersion/go-mls"

func init() {
	wbNode = func(n, x uint32) math { return math(mls.VerifNode(n, x)) }
	wbCommon = mls.VerifCommon
	wbTree = func(raw []byte) (treeUnderTest, error) { return mls.VerifReadTree(raw) }
}
