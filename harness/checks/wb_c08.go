//go:build wb_c08

package checks

import mls "github.com/emersion/go-mls"

func init() { wbDecode = mls.VerifDecode }
