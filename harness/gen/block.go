package gen

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"
)

// Hash maps a small id to a 32 byte hash, in one of several styles.
func Hash(style, id int) types.Hash {
	var h types.Hash
	switch style {
	case 1: // short, as left-padded integers
		binary.BigEndian.PutUint32(h[28:], uint32(id))
	case 2: // nearly equal
		for i := range h {
			h[i] = 0xab
		}
		binary.BigEndian.PutUint16(h[30:], uint16(id))
	case 3: // different only at the front
		binary.BigEndian.PutUint16(h[:], uint16(id))
		h[31] = 1
	default:
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(id))
		h = sha256.Sum256(append([]byte("block"), b[:]...))
	}
	return h
}

// SubID is the id of a sub-batch.
func SubID(style, id int) types.Hash { return Hash(style, id+20000) }

// Family is a schema entry together with a way of building keys for it.
type Family struct {
	Regex  string
	Prefix func(seg int) string // the prefix the schema entry matches
	Suffix func(n int) string   // what may follow without extending the match
}

var segs = []string{"a", "b7", "0xff", "q", "long-segment-name"}

func plain(n int) string {
	switch n % 7 {
	case 0:
		return fmt.Sprintf("k%d", n)
	case 1:
		return fmt.Sprintf("x/y/%d", n)
	case 2:
		return fmt.Sprintf("%d/", n)
	case 3:
		return fmt.Sprintf("\x00\x01%d", n)
	case 4:
		return fmt.Sprintf("./%d", n)
	case 5:
		return fmt.Sprintf("../%d//", n)
	}
	return fmt.Sprintf("ключ%d", n)
}

func fixed(p string) func(int) string { return func(int) string { return p } }

// Families: no entry's text is a prefix of another's and no key matches two.
var Families = []Family{
	{"foo/", fixed("foo/"), plain},
	{"bar/[^/]+/baz/", func(s int) string { return "bar/" + segs[s%len(segs)] + "/baz/" }, plain},
	{"acct/[0-9a-f]+/", func(s int) string { return fmt.Sprintf("acct/%x/", 10+s*37) }, plain},
	{"state/thing", fixed("state/thing"), plain},
	{"n/[0-9]+", func(s int) string { return fmt.Sprintf("n/%d", 1+s*9) }, func(n int) string {
		if n%5 == 0 {
			return ""
		}
		return fmt.Sprintf("x%d", n)
	}},
	{"c/x/s/", fixed("c/x/s/"), plain},
	{"^anch/[a-z]{2}/", func(s int) string { return "anch/" + []string{"ab", "zz", "qq"}[s%3] + "/" }, plain},
	{"/root/", fixed("/root/"), plain},
	{"d1/|d2/", func(s int) string { return fmt.Sprintf("d%d/", 1+s%2) }, plain},
	{"e//", fixed("e//"), plain},
	{"m/(aa|bb)/", func(s int) string { return []string{"m/aa/", "m/bb/"}[s%2] }, plain},
	{"ünï/", fixed("ünï/"), plain},
	{"w", fixed("w"), plain},
	{"dot/../", fixed("dot/../"), plain},
}

// Unmatched builds a key that no family matches.
func Unmatched(n int) string {
	switch n % 6 {
	case 0:
		return fmt.Sprintf("zz/%d", n)
	case 1:
		return fmt.Sprintf("default/thing/%d", n)
	case 2:
		return fmt.Sprintf("zfoo/%d", n) // contains a family's prefix, not at the start
	case 3:
		return fmt.Sprintf("z/d2/%d", n)
	case 4:
		return fmt.Sprintf("Z\xff%d", n)
	}
	return fmt.Sprintf("z%d/foo/bar", n)
}

// KV is one update. Fam < 0: not matched by the schema.
type KV struct {
	Fam, Seg, N int
	Val         []byte
	Key         string `json:",omitempty"` // used as is when set
	Pad         int    `json:",omitempty"` // bytes that follow Val
}

var (
	padding []byte
	padOnce sync.Once
)

// Value is the value, in memory of its own.
func (k KV) Value() []byte {
	if k.Pad == 0 {
		return append([]byte{}, k.Val...)
	}
	padOnce.Do(func() {
		for x := uint32(1); len(padding) < 10<<20; {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			padding = append(padding, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
		}
	})
	return append(append(make([]byte, 0, len(k.Val)+k.Pad), k.Val...), padding[:k.Pad]...)
}

// KeyString is the key itself.
func (k KV) KeyString() string {
	if k.Key != "" {
		return k.Key
	}
	if k.Fam < 0 {
		return Unmatched(k.N)
	}
	return Families[k.Fam].Prefix(k.Seg) + Families[k.Fam].Suffix(k.N)
}

// PrefixOf is the schema prefix of the key ("" when unmatched).
func (k KV) PrefixOf() string {
	if k.Fam < 0 {
		return ""
	}
	return Families[k.Fam].Prefix(k.Seg)
}

// Sub is a sub-batch.
type Sub struct {
	ID      int
	Fam     int // family the path is matched by, or -1
	Seg     int
	Path    string
	Deletes []string
	Updates []KV
	Group   int // items per message for the reference encoder (0: one update each, deletes in one)
}

// Block is one payload.
type Block struct {
	ID, Parent int
	Num        int64
	Weight     []byte
	Updates    []KV
	Deletes    []KV
	Subs       []Sub
}

// WeightInt is the weight as an integer.
func (b *Block) WeightInt() *big.Int { return new(big.Int).SetBytes(b.Weight) }

// Schema is the schema for a selection of families.
func Schema(fams []int) map[string]string {
	m := map[string]string{}
	for _, f := range fams {
		m[Families[f].Regex] = Topic(f)
	}
	return m
}

// Topic names the topic of a family; some families share one.
func Topic(f int) string {
	if f < 0 {
		return "default"
	}
	if f%5 == 4 {
		return "shared"
	}
	return fmt.Sprintf("topic-%d", f)
}

// Want is the content a consumer must see.
type Want struct {
	Values  map[string][]byte
	Deletes map[string]bool
}

// Args returns the block as arguments of the producer API.
func (b *Block) Args(style int) (num int64, hash, parent types.Hash, weight *big.Int, up map[string][]byte, del map[string]struct{}, subs map[string]types.Hash) {
	up, del, subs = map[string][]byte{}, map[string]struct{}{}, map[string]types.Hash{}
	for _, u := range b.Updates {
		up[u.KeyString()] = u.Value()
	}
	for _, d := range b.Deletes {
		del[d.KeyString()] = struct{}{}
	}
	for _, s := range b.Subs {
		subs[s.Path] = SubID(style, s.ID)
	}
	return b.Num, Hash(style, b.ID), Hash(style, b.Parent), b.WeightInt(), up, del, subs
}

// SubArgs returns a sub-batch as arguments of the producer API.
func (s *Sub) SubArgs() ([]string, map[string][]byte) {
	up := map[string][]byte{}
	for _, u := range s.Updates {
		up[u.KeyString()] = u.Value()
	}
	return append([]string{}, s.Deletes...), up
}

// FullWant is the whole content of the block.
func (b *Block) FullWant() Want { return b.Projection(func(string) bool { return true }) }

// Projection is the content restricted to header entries for which tracked holds.
func (b *Block) Projection(tracked func(string) bool) Want {
	w := Want{map[string][]byte{}, map[string]bool{}}
	sel := func(k KV) bool {
		p := k.PrefixOf()
		if p == "" {
			p = k.KeyString()
		}
		return tracked(p)
	}
	for _, u := range b.Updates {
		if sel(u) {
			w.Values[u.KeyString()] = u.Value()
		}
	}
	for _, d := range b.Deletes {
		if sel(d) {
			w.Deletes[d.KeyString()] = true
		}
	}
	for _, s := range b.Subs {
		if tracked(s.Path) {
			for _, u := range s.Updates {
				w.Values[u.KeyString()] = u.Value()
			}
			for _, d := range s.Deletes {
				w.Deletes[d] = true
			}
		}
	}
	return w
}

// Msg is a message on the wire.
type Msg struct {
	Topic string
	K, V  []byte
	Entry string // the header entry it is counted by; "" for the header itself and inline data
}

// Encode is the reference encoder: SPEC.md's message set for the block, in
// key order.
func (b *Block) Encode(style int) []Msg {
	h := Hash(style, b.ID)
	hd := &Header{Num: b.Num, Weight: b.WeightInt().Bytes(), Parent: Hash(style, b.Parent), Updates: map[string]Rec{}}
	var out []Msg
	key := func(t byte, parts ...[]byte) []byte {
		k := append([]byte{t}, h[:]...)
		for _, p := range parts {
			k = append(k, p...)
		}
		return k
	}
	count := func(p string) { r := hd.Updates[p]; r.Count++; hd.Updates[p] = r }
	for _, u := range b.Updates {
		if p := u.PrefixOf(); p != "" {
			count(p)
			out = append(out, Msg{Topic(u.Fam), key(3, []byte(u.KeyString())), u.Value(), p})
		} else {
			hd.Updates[u.KeyString()] = Rec{Value: u.Value()}
		}
	}
	for _, d := range b.Deletes {
		if p := d.PrefixOf(); p != "" {
			count(p)
			out = append(out, Msg{Topic(d.Fam), key(4, []byte(d.KeyString())), []byte{}, p})
		} else {
			hd.Updates[d.KeyString()] = Rec{Delete: true}
		}
	}
	for _, s := range b.Subs {
		id := SubID(style, s.ID)
		hd.Updates[s.Path] = Rec{Sub: id}
		topic := Topic(s.Fam)
		recs := s.Records()
		out = append(out, Msg{topic, key(1, id[:]), AvroInt(len(recs)), s.Path})
		for i, r := range recs {
			out = append(out, Msg{topic, key(2, id[:], AvroInt(i)), EncodeSub(&r), s.Path})
		}
	}
	out = append(out, Msg{"default", key(0), EncodeHeader(hd), ""})
	SortMsgs(out)
	return out
}

// Records splits a sub-batch into its messages.
func (s *Sub) Records() []SubRec {
	ups := append([]KV{}, s.Updates...)
	sort.Slice(ups, func(i, j int) bool { return ups[i].KeyString() < ups[j].KeyString() })
	var recs []SubRec
	if s.Group == 0 {
		if len(s.Deletes) > 0 {
			recs = append(recs, SubRec{Delete: s.Deletes})
		}
		for _, u := range ups {
			recs = append(recs, SubRec{Updates: map[string][]byte{u.KeyString(): u.Value()}})
		}
		return recs
	}
	dels := s.Deletes
	for len(dels) > 0 || len(ups) > 0 {
		r := SubRec{Updates: map[string][]byte{}}
		n := s.Group
		for n > 0 && len(ups) > 0 {
			r.Updates[ups[0].KeyString()] = ups[0].Value()
			ups = ups[1:]
			n--
		}
		for n > 0 && len(dels) > 0 {
			r.Delete = append(r.Delete, dels[0])
			dels = dels[1:]
			n--
		}
		recs = append(recs, r)
	}
	return recs
}

// SortMsgs orders messages by key.
func SortMsgs(m []Msg) { sort.Slice(m, func(i, j int) bool { return string(m[i].K) < string(m[j].K) }) }

// FromProducer sends the block through the producer under test and returns its
// messages in key order.
func (b *Block) FromProducer(p *delivery.Producer, style int) ([]Msg, error) {
	num, hash, parent, weight, up, del, subs := b.Args(style)
	ms, err := p.AddBlock(num, hash, parent, weight, up, del, subs)
	if err != nil {
		return nil, fmt.Errorf("AddBlock: %w", err)
	}
	var out []Msg
	add := func(ms map[string][]delivery.Message) {
		for topic, l := range ms {
			for _, m := range l {
				out = append(out, Msg{Topic: topic, K: append([]byte{}, m.Key()...), V: append([]byte{}, m.Value()...)})
			}
		}
	}
	add(ms)
	for i := range b.Subs {
		d, u := b.Subs[i].SubArgs()
		ms, err := p.SendBatch(SubID(style, b.Subs[i].ID), d, u)
		if err != nil {
			return nil, fmt.Errorf("SendBatch: %w", err)
		}
		add(ms)
	}
	SortMsgs(out)
	return out, nil
}

// --- generators ---

// GenFamilies draws a schema.
func GenFamilies(t *rapid.T) []int {
	n := rapid.IntRange(0, 5).Draw(t, "nfam")
	perm := rapid.SliceOfNDistinct(rapid.IntRange(0, len(Families)-1), n, n, rapid.ID[int]).Draw(t, "fams")
	return perm
}

// GenVal draws a value.
func GenVal(t *rapid.T) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "vk") {
	case 0, 1:
		return []byte{}
	case 2:
		return []byte{0}
	case 3:
		n := rapid.IntRange(60, 300).Draw(t, "vlen")
		return []byte(strings.Repeat("v", n))
	default:
		return rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "val")
	}
}

// GenWeight draws a weight, up to 256 bits.
func GenWeight(t *rapid.T) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "wk") {
	case 0:
		return []byte{}
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "w32")
	default:
		return rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "w")
	}
}

// Opt limits block contents.
type Opt struct {
	MaxUpdates, MaxDeletes, MaxSubs, MaxSubItems int
	NoEmpty                                      bool // no empty values
	Grouped                                      bool // allow grouped sub-batch messages
	Many                                         int  // now and then up to so many sub-batches
	Large                                        bool // or many keys, or a sub-batch of many parts
}

// DefaultOpt is the usual size.
var DefaultOpt = Opt{MaxUpdates: 8, MaxDeletes: 4, MaxSubs: 3, MaxSubItems: 4, Grouped: true, Many: 12, Large: true}

// GenBlockContent fills in updates, deletes and sub-batches. fams is the
// schema; subBase the first unused sub-batch id.
func GenBlockContent(t *rapid.T, b *Block, fams []int, subBase int, o Opt) {
	pick := func(lbl string) int {
		if len(fams) == 0 || rapid.IntRange(0, 3).Draw(t, lbl+"unm") == 0 {
			return -1
		}
		return fams[rapid.IntRange(0, len(fams)-1).Draw(t, lbl)]
	}
	val := func() []byte {
		v := GenVal(t)
		if o.NoEmpty && len(v) == 0 {
			return []byte{1}
		}
		return v
	}
	hi, large := 40, 0
	if o.Many > 0 && rapid.IntRange(0, 15).Draw(t, "many") == 15 {
		of := 1
		if o.Large {
			of = rapid.IntRange(0, 15).Draw(t, "of") % 5
		}
		switch of {
		case 0: // one time in 16 very many
			if o.MaxUpdates, hi = 1200, 3000; rapid.IntRange(0, 3).Draw(t, "very") > 0 {
				o.MaxUpdates, hi = 150, 300
			}
		case 1:
			o.MaxSubs = o.Many
		case 2:
			o.MaxUpdates, hi = 150, 300
		case 3:
			o.MaxDeletes, hi = 150, 300
		case 4:
			if o.MaxSubs > 0 {
				large = rapid.IntRange(60, 200).Draw(t, "large")
			}
		}
	}
	seen := map[string]bool{}
	inline := map[string]bool{}
	entries := map[string]bool{}
	n := rapid.IntRange(0, o.MaxUpdates).Draw(t, "nup")
	for i := 0; i < n; i++ {
		kv := KV{Fam: pick("uf"), N: rapid.IntRange(0, hi).Draw(t, "un")}
		if kv.Fam >= 0 {
			kv.Seg = rapid.IntRange(0, 2).Draw(t, "us")
		}
		kv.Val = val()
		k := kv.KeyString()
		if seen[k] {
			continue
		}
		seen[k] = true
		if kv.Fam < 0 {
			inline[k] = true
			entries[k] = true
		} else {
			entries[kv.PrefixOf()] = true
		}
		b.Updates = append(b.Updates, kv)
	}
	seenD := map[string]bool{}
	n = rapid.IntRange(0, o.MaxDeletes).Draw(t, "ndel")
	for i := 0; i < n; i++ {
		kv := KV{Fam: pick("df"), N: rapid.IntRange(0, hi).Draw(t, "dn")}
		if kv.Fam >= 0 {
			kv.Seg = rapid.IntRange(0, 2).Draw(t, "ds")
		}
		k := kv.KeyString()
		if seenD[k] || inline[k] {
			continue
		}
		seenD[k] = true
		if kv.Fam < 0 {
			entries[k] = true
		} else {
			entries[kv.PrefixOf()] = true
		}
		b.Deletes = append(b.Deletes, kv)
	}
	n = rapid.IntRange(min(large, 1), o.MaxSubs).Draw(t, "nsub")
	for i := 0; i < n; i++ {
		s := Sub{ID: subBase + i, Fam: pick("sf")}
		if s.Fam >= 0 {
			// a path under a family, beyond the counted prefix or equal to it
			s.Seg = rapid.IntRange(0, 2).Draw(t, "sseg")
			s.Path = Families[s.Fam].Prefix(s.Seg)
			if rapid.Bool().Draw(t, "ssuf") {
				s.Path += Families[s.Fam].Suffix(70 + i)
			}
		} else {
			s.Path = fmt.Sprintf("zsub/%d/", i)
		}
		if entries[s.Path] {
			continue
		}
		entries[s.Path] = true
		nd := rapid.IntRange(0, o.MaxSubItems).Draw(t, "sd")
		for j := 0; j < nd; j++ {
			s.Deletes = append(s.Deletes, fmt.Sprintf("%s%s%d", s.Path, "del", j))
		}
		nu := rapid.IntRange(0, o.MaxSubItems).Draw(t, "su")
		if i == 0 {
			nu += large
		}
		for j := 0; j < nu; j++ {
			s.Updates = append(s.Updates, KV{Fam: -1, Key: fmt.Sprintf("%s%s%d", s.Path, "upd", j), Val: val()})
		}
		if o.Grouped {
			s.Group = rapid.IntRange(0, 3).Draw(t, "grp")
		}
		b.Subs = append(b.Subs, s)
	}
}

// RMsg is a message as a transport hands it to a consumer.
type RMsg struct {
	Msg
	Src string
	Off int64
}
