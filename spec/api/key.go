package api

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
)

// segment is the meaning of the text of an unquoted segment
func segment(key string, first bool, text string) interface{} {
	i, err := strconv.ParseInt(text, 10, 32)
	switch {
	case err == nil && first:
		panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
	case err == nil:
		return int(i)
	case text == ``:
		panic(fmt.Errorf(`key '%s' contains an empty segment`, key))
	}
	return text
}

// The buffer holds the text of the segment read so far; quoted tells that a part of that text was quoted. A dot ends
// the segment, a quote starts a quoted text that is closed by the same character, everything else belongs to the segment.
//
//@ contract parseUnquoted
//@ property C01
//@ effects none
func specParseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}, quoted bool) []interface{} {
	for i, c := range part {
		if c == '"' || c == '\'' {
			return parseQuoted(b, c, key, part[i+1:], parts)
		}
		if c != '.' {
			b.WriteRune(c)
			continue
		}
		text := b.String()
		if quoted {
			parts = append(parts, text)
		} else {
			parts = append(parts, segment(key, len(parts) == 0, text))
		}
		quoted = false
		b.Reset()
	}
	text := b.String()
	if quoted {
		return append(parts, text)
	}
	return append(parts, segment(key, len(parts) == 0, text))
}

// A quoted text extends to the next quote of the same kind and is a literal segment when it ends the key.
//
//@ contract parseQuoted
//@ property C01
//@ effects none
func specParseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{}) []interface{} {
	for i, c := range part {
		if c != q {
			b.WriteRune(c)
			continue
		}
		rest := part[i+1:]
		if rest == `` {
			return append(parts, b.String())
		}
		return parseUnquoted(b, key, rest, parts, true)
	}
	panic(fmt.Errorf(`unterminated quote in key '%s'`, key))
}

// A key consists of the segments of its text and remembers that text.
//
//@ contract NewKey
//@ property C01
//@ effects none
func specNewKey(str string) Key {
	return &key{source: str, parts: parseUnquoted(bytes.NewBufferString(``), str, str, []interface{}{}, false)}
}

//@ contract NewRootKey
//@ property C01
//@ effects none
//@ nopanic
func specNewRootKey(root string) Key {
	return &key{source: root, parts: []interface{}{root}}
}

//@ contract (*key).Source
//@ property C01
//@ effects none
//@ nopanic
func specSource(k *key) string { return k.source }

//@ contract (*key).Parts
//@ property C01
//@ effects none
//@ nopanic
func specParts(k *key) []interface{} { return k.parts }

// The root is the first segment.
//
//@ contract (*key).Root
//@ property C01
//@ effects none
func specRoot(k *key) string { return k.parts[0].(string) }

//@ contract (*key).Equals
//@ property C01
//@ effects none
//@ nopanic
func specKeyEquals(k *key, value interface{}) bool {
	o, ok := value.(*key)
	return ok && o.source == k.source
}

// entryKey is the map key that a segment selects
func entryKey(p interface{}) dgo.Value {
	if ix, ok := p.(int); ok {
		return vf.Integer(int64(ix))
	}
	return vf.String(p.(string))
}

// dig selects the element of v that one segment denotes
func dig(v dgo.Value, p interface{}) (dgo.Value, bool) {
	if a, ok := v.(dgo.Array); ok {
		ix, isInt := p.(int)
		if !isInt || ix < 0 || ix >= a.Len() {
			return nil, false
		}
		return a.Get(ix), true
	}
	if m, ok := v.(dgo.Map); ok {
		e := m.Get(entryKey(p))
		return e, e != nil
	}
	return nil, false
}

// The segments after the first are applied one after the other until one selects nothing.
//
//@ contract (*key).Dig
//@ property C02 C17/x
func specDig(k *key, ic Invocation, v dgo.Value) dgo.Value {
	if len(k.parts) == 1 {
		return v
	}
	return ic.WithSubLookup(k, func() dgo.Value {
		for i := 1; i < len(k.parts); i++ {
			p := k.parts[i]
			old := v
			v = ic.WithSegment(p, func() dgo.Value {
				found, ok := dig(old, p)
				if !ok {
					ic.ReportNotFound(p)
					return nil
				}
				ic.ReportFound(p, found)
				return found
			})
			if v == nil {
				return nil
			}
		}
		return v
	})
}

// One single-entry map for each segment after the first, the last one innermost.
//
//@ contract (*key).Bury
//@ property C02
//@ effects none
func specBury(k *key, value dgo.Value) dgo.Value {
	for i := len(k.parts); i > 1; i-- {
		value = vf.Map(entryKey(k.parts[i-1]), value)
	}
	return value
}

// A value that is not a map is rejected, nil counts as the empty map.
//
//@ contract ToMap
//@ property C19
//@ effects none
func specToMap(argName string, vi interface{}) dgo.Map {
	v := vf.Value(vi)
	if v == vf.Nil {
		return vf.Map()
	}
	m, ok := v.(dgo.Map)
	if !ok {
		panic(fmt.Errorf(`%s does not represent a map`, argName))
	}
	return m
}

// ---- a key as a value: its data form is the text it was created from

//@ contract var keyType
//@ property C18
func specKeyType() dgo.NamedType {
	return tf.NewNamed(`hiera.key`, func(v dgo.Value) dgo.Value {
		return NewKey(v.String())
	}, func(v dgo.Value) dgo.Value {
		return vf.String(v.(*key).source)
	}, reflect.TypeOf(&key{}), reflect.TypeOf((*Key)(nil)).Elem(), nil)
}

//@ contract (*key).Type
//@ property C18
//@ inline
//@ effects none
func specKeyTypeOf(k *key) dgo.Type { return keyType }

//@ contract (*key).String
//@ property C18
func specKeyString(k *key) string { return keyType.(dgo.NamedType).ValueString(k) }
