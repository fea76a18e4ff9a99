// Package vo holds the value objects of the fixture services.
package vo

import "time"

type Color string

const (
	ColorRed   Color = "red"
	ColorGreen Color = "green"
)

type Level int

const (
	LevelLow  Level = 1
	LevelHigh Level = 9
)

type Flag bool

type Item struct {
	Name  string            `json:"name"`
	N     int64             `json:"n,omitempty"`
	Sub   *Item             `json:"sub,omitempty"`
	Attrs map[string]string `json:"attrs"`
}

type Base struct {
	ID    string `json:"id"`
	Count uint32 `json:"count"`
}

type Names []string

type Table map[string]*Item

type Rec struct {
	Base   `json:",inline"`
	S      string            `json:"s"`
	B      bool              `json:"b"`
	I8     int8              `json:"i8"`
	I16    int16             `json:"i16"`
	I32    int32             `json:"i32"`
	I64    int64             `json:"i64"`
	I      int               `json:"i"`
	U8     uint8             `json:"u8"`
	U16    uint16            `json:"u16"`
	U32    uint32            `json:"u32"`
	U64    uint64            `json:"u64"`
	F32    float32           `json:"f32"`
	F64    float64           `json:"f64"`
	Bin    []byte            `json:"bin"`
	Color  Color             `json:"color"`
	Level  Level             `json:"level,omitempty"`
	Flag   Flag              `json:"flag"`
	Item   Item              `json:"item"`
	PItem  *Item             `json:"pItem"`
	OItem  *Item             `json:"oItem,omitempty"`
	PS     *string           `json:"ps"`
	PI     *int              `json:"pi,omitempty"`
	List   []string          `json:"list"`
	OList  []int64           `json:"oList,omitempty"`
	Items  []Item            `json:"items"`
	PItems []*Item           `json:"pItems"`
	M      map[string]int64  `json:"m"`
	MC     map[Color]string  `json:"mc"`
	MI     map[int]Item      `json:"mi"`
	MM     map[string][]Item `json:"mm,omitempty"`
	Names  Names             `json:"names"`
	Table  Table             `json:"table"`
	When   time.Time         `json:"when"`
	PWhen  *time.Time        `json:"pWhen"`
	Anon   struct {
		A string `json:"a"`
		Z []int  `json:"z"`
	} `json:"anon"`
	NoTag  string
	Hidden string `json:"-"`
	priv   string
}

// SetPriv keeps the unexported field in use.
func (r *Rec) SetPriv(s string) { r.priv = s }

type TimeRec struct {
	T   time.Time            `json:"t"`
	P   *time.Time           `json:"p"`
	O   *time.Time           `json:"o,omitempty"`
	L   []time.Time          `json:"l"`
	PL  []*time.Time         `json:"pl"`
	M   map[string]time.Time `json:"m"`
	Sub *TimeRec             `json:"sub,omitempty"`
}

type Any struct {
	V interface{}            `json:"v"`
	L []interface{}          `json:"l"`
	M map[string]interface{} `json:"m"`
}
