package gen

import "time"

// Delivered adapts a message to the consumer API.
type Delivered struct{ R RMsg }

func (d *Delivered) Key() []byte     { return d.R.K }
func (d *Delivered) Value() []byte   { return d.R.V }
func (d *Delivered) Offset() int64   { return d.R.Off }
func (d *Delivered) Source() string  { return d.R.Src }
func (d *Delivered) Time() time.Time { return time.Unix(1700000000, 0) }
