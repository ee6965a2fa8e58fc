package main

import (
	"encoding/base64"
	"encoding/pem"
	stderrors "errors"
	"strings"
)

func b64any(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }

func pemBytes(s string) []byte {
	b, _ := pem.Decode([]byte(strings.TrimSpace(s)))
	if b == nil {
		return nil
	}
	return b.Bytes
}

func errIs(err, k error) bool { return stderrors.Is(err, k) }
