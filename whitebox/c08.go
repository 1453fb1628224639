// Laid over the library when the monitors of C08 are built; see bin/check.sh.

package mls

import "fmt"

// VerifDecode decodes and encodes again one structure.
func VerifDecode(kind string, raw []byte) ([]byte, error) {
	var v interface {
		unmarshaler
		marshaler
	}
	switch kind {
	case "message":
		v = new(mlsMessage)
	case "tree":
		var tree ratchetTree
		if err := unmarshal(raw, &tree); err != nil {
			return nil, err
		}
		return marshal(tree)
	case "group secrets":
		v = new(groupSecrets)
	case "add":
		v = new(add)
	case "update":
		v = new(update)
	case "remove":
		v = new(remove)
	case "pre-shared key":
		v = new(preSharedKey)
	case "reinit":
		v = new(reInit)
	case "external init":
		v = new(externalInit)
	case "group context extensions":
		v = new(groupContextExtensions)
	case "proposal":
		v = new(proposal)
	case "commit":
		v = new(commit)
	case "update path":
		v = new(updatePath)
	case "authenticated content":
		v = new(authenticatedContent)
	case "group context":
		v = new(groupContext)
	default:
		panic(fmt.Sprintf("unknown kind %q", kind))
	}
	if err := unmarshal(raw, v); err != nil {
		return nil, err
	}
	return marshal(v)
}
