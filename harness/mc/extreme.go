package main

import (
	"encoding/binary"

	"verifharness/ref"
)

// extremeEntry: the key of this number makes one derived value extreme.
type extremeEntry struct {
	n    uint32
	what string
}

// extremeMsg and extremeKey are those of tools/extreme, which searched the table.
var extremeMsg = []byte("a message for extreme keys")

func extremeKey(n uint32) []byte {
	return ref.SHA3_256(binary.BigEndian.AppendUint32([]byte("extreme"), n))
}
