package codec

import "verif/fgen"

// Hex is a byte string shown as hex in replay files.
type Hex = fgen.Hex

// Fields are generated field values.
type Fields = fgen.Fields

// Hdr is garbage header content.
type Hdr = fgen.Hdr

var (
	roll      = fgen.Roll
	mix       = fgen.Mix
	genBytes  = fgen.Bytes
	genType   = fgen.Type
	genFields = fgen.GenFields
	genHdr    = fgen.GenHdr
	genOp     = fgen.Op
	genFrame  = fgen.Frame
	otherOps  = fgen.OtherOps
)
