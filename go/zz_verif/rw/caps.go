// Code generated by tools/gencaps.py.

package rw

import "net/http"

// Writer returns r as a ResponseWriter that offers exactly the given optional interfaces.
func (r *Rec) Writer(c Caps) http.ResponseWriter {
	k := 0
	for i, on := range []bool{c.Flush, c.Notify, c.Hijack, c.ReadFrom, c.Push, c.Unwrap} {
		if on {
			k |= 1 << uint(i)
		}
	}
	b := base{r}
	switch k {
	case 0:
		return &struct {
			base
		}{b}
	case 1:
		return &struct {
			base
			capFlush
		}{b, capFlush{r}}
	case 2:
		return &struct {
			base
			capNotify
		}{b, capNotify{r}}
	case 3:
		return &struct {
			base
			capFlush
			capNotify
		}{b, capFlush{r}, capNotify{r}}
	case 4:
		return &struct {
			base
			capHijack
		}{b, capHijack{r}}
	case 5:
		return &struct {
			base
			capFlush
			capHijack
		}{b, capFlush{r}, capHijack{r}}
	case 6:
		return &struct {
			base
			capNotify
			capHijack
		}{b, capNotify{r}, capHijack{r}}
	case 7:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
		}{b, capFlush{r}, capNotify{r}, capHijack{r}}
	case 8:
		return &struct {
			base
			capReadFrom
		}{b, capReadFrom{r}}
	case 9:
		return &struct {
			base
			capFlush
			capReadFrom
		}{b, capFlush{r}, capReadFrom{r}}
	case 10:
		return &struct {
			base
			capNotify
			capReadFrom
		}{b, capNotify{r}, capReadFrom{r}}
	case 11:
		return &struct {
			base
			capFlush
			capNotify
			capReadFrom
		}{b, capFlush{r}, capNotify{r}, capReadFrom{r}}
	case 12:
		return &struct {
			base
			capHijack
			capReadFrom
		}{b, capHijack{r}, capReadFrom{r}}
	case 13:
		return &struct {
			base
			capFlush
			capHijack
			capReadFrom
		}{b, capFlush{r}, capHijack{r}, capReadFrom{r}}
	case 14:
		return &struct {
			base
			capNotify
			capHijack
			capReadFrom
		}{b, capNotify{r}, capHijack{r}, capReadFrom{r}}
	case 15:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
			capReadFrom
		}{b, capFlush{r}, capNotify{r}, capHijack{r}, capReadFrom{r}}
	case 16:
		return &struct {
			base
			capPush
		}{b, capPush{r}}
	case 17:
		return &struct {
			base
			capFlush
			capPush
		}{b, capFlush{r}, capPush{r}}
	case 18:
		return &struct {
			base
			capNotify
			capPush
		}{b, capNotify{r}, capPush{r}}
	case 19:
		return &struct {
			base
			capFlush
			capNotify
			capPush
		}{b, capFlush{r}, capNotify{r}, capPush{r}}
	case 20:
		return &struct {
			base
			capHijack
			capPush
		}{b, capHijack{r}, capPush{r}}
	case 21:
		return &struct {
			base
			capFlush
			capHijack
			capPush
		}{b, capFlush{r}, capHijack{r}, capPush{r}}
	case 22:
		return &struct {
			base
			capNotify
			capHijack
			capPush
		}{b, capNotify{r}, capHijack{r}, capPush{r}}
	case 23:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
			capPush
		}{b, capFlush{r}, capNotify{r}, capHijack{r}, capPush{r}}
	case 24:
		return &struct {
			base
			capReadFrom
			capPush
		}{b, capReadFrom{r}, capPush{r}}
	case 25:
		return &struct {
			base
			capFlush
			capReadFrom
			capPush
		}{b, capFlush{r}, capReadFrom{r}, capPush{r}}
	case 26:
		return &struct {
			base
			capNotify
			capReadFrom
			capPush
		}{b, capNotify{r}, capReadFrom{r}, capPush{r}}
	case 27:
		return &struct {
			base
			capFlush
			capNotify
			capReadFrom
			capPush
		}{b, capFlush{r}, capNotify{r}, capReadFrom{r}, capPush{r}}
	case 28:
		return &struct {
			base
			capHijack
			capReadFrom
			capPush
		}{b, capHijack{r}, capReadFrom{r}, capPush{r}}
	case 29:
		return &struct {
			base
			capFlush
			capHijack
			capReadFrom
			capPush
		}{b, capFlush{r}, capHijack{r}, capReadFrom{r}, capPush{r}}
	case 30:
		return &struct {
			base
			capNotify
			capHijack
			capReadFrom
			capPush
		}{b, capNotify{r}, capHijack{r}, capReadFrom{r}, capPush{r}}
	case 31:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
			capReadFrom
			capPush
		}{b, capFlush{r}, capNotify{r}, capHijack{r}, capReadFrom{r}, capPush{r}}
	case 32:
		return &struct {
			base
			capUnwrap
		}{b, capUnwrap{r}}
	case 33:
		return &struct {
			base
			capFlush
			capUnwrap
		}{b, capFlush{r}, capUnwrap{r}}
	case 34:
		return &struct {
			base
			capNotify
			capUnwrap
		}{b, capNotify{r}, capUnwrap{r}}
	case 35:
		return &struct {
			base
			capFlush
			capNotify
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capUnwrap{r}}
	case 36:
		return &struct {
			base
			capHijack
			capUnwrap
		}{b, capHijack{r}, capUnwrap{r}}
	case 37:
		return &struct {
			base
			capFlush
			capHijack
			capUnwrap
		}{b, capFlush{r}, capHijack{r}, capUnwrap{r}}
	case 38:
		return &struct {
			base
			capNotify
			capHijack
			capUnwrap
		}{b, capNotify{r}, capHijack{r}, capUnwrap{r}}
	case 39:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capHijack{r}, capUnwrap{r}}
	case 40:
		return &struct {
			base
			capReadFrom
			capUnwrap
		}{b, capReadFrom{r}, capUnwrap{r}}
	case 41:
		return &struct {
			base
			capFlush
			capReadFrom
			capUnwrap
		}{b, capFlush{r}, capReadFrom{r}, capUnwrap{r}}
	case 42:
		return &struct {
			base
			capNotify
			capReadFrom
			capUnwrap
		}{b, capNotify{r}, capReadFrom{r}, capUnwrap{r}}
	case 43:
		return &struct {
			base
			capFlush
			capNotify
			capReadFrom
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capReadFrom{r}, capUnwrap{r}}
	case 44:
		return &struct {
			base
			capHijack
			capReadFrom
			capUnwrap
		}{b, capHijack{r}, capReadFrom{r}, capUnwrap{r}}
	case 45:
		return &struct {
			base
			capFlush
			capHijack
			capReadFrom
			capUnwrap
		}{b, capFlush{r}, capHijack{r}, capReadFrom{r}, capUnwrap{r}}
	case 46:
		return &struct {
			base
			capNotify
			capHijack
			capReadFrom
			capUnwrap
		}{b, capNotify{r}, capHijack{r}, capReadFrom{r}, capUnwrap{r}}
	case 47:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
			capReadFrom
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capHijack{r}, capReadFrom{r}, capUnwrap{r}}
	case 48:
		return &struct {
			base
			capPush
			capUnwrap
		}{b, capPush{r}, capUnwrap{r}}
	case 49:
		return &struct {
			base
			capFlush
			capPush
			capUnwrap
		}{b, capFlush{r}, capPush{r}, capUnwrap{r}}
	case 50:
		return &struct {
			base
			capNotify
			capPush
			capUnwrap
		}{b, capNotify{r}, capPush{r}, capUnwrap{r}}
	case 51:
		return &struct {
			base
			capFlush
			capNotify
			capPush
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capPush{r}, capUnwrap{r}}
	case 52:
		return &struct {
			base
			capHijack
			capPush
			capUnwrap
		}{b, capHijack{r}, capPush{r}, capUnwrap{r}}
	case 53:
		return &struct {
			base
			capFlush
			capHijack
			capPush
			capUnwrap
		}{b, capFlush{r}, capHijack{r}, capPush{r}, capUnwrap{r}}
	case 54:
		return &struct {
			base
			capNotify
			capHijack
			capPush
			capUnwrap
		}{b, capNotify{r}, capHijack{r}, capPush{r}, capUnwrap{r}}
	case 55:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
			capPush
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capHijack{r}, capPush{r}, capUnwrap{r}}
	case 56:
		return &struct {
			base
			capReadFrom
			capPush
			capUnwrap
		}{b, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	case 57:
		return &struct {
			base
			capFlush
			capReadFrom
			capPush
			capUnwrap
		}{b, capFlush{r}, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	case 58:
		return &struct {
			base
			capNotify
			capReadFrom
			capPush
			capUnwrap
		}{b, capNotify{r}, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	case 59:
		return &struct {
			base
			capFlush
			capNotify
			capReadFrom
			capPush
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	case 60:
		return &struct {
			base
			capHijack
			capReadFrom
			capPush
			capUnwrap
		}{b, capHijack{r}, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	case 61:
		return &struct {
			base
			capFlush
			capHijack
			capReadFrom
			capPush
			capUnwrap
		}{b, capFlush{r}, capHijack{r}, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	case 62:
		return &struct {
			base
			capNotify
			capHijack
			capReadFrom
			capPush
			capUnwrap
		}{b, capNotify{r}, capHijack{r}, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	case 63:
		return &struct {
			base
			capFlush
			capNotify
			capHijack
			capReadFrom
			capPush
			capUnwrap
		}{b, capFlush{r}, capNotify{r}, capHijack{r}, capReadFrom{r}, capPush{r}, capUnwrap{r}}
	}
	panic("unreachable")
}
