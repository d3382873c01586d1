//verif:package catalog

package catalog

import (
	"bytes"
	"encoding/json"
	"io"
	"maps"
	"slices"
	"strings"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

// Either a text, which is the category "other", or an object with texts. Names are not case-sensitive,
// of several spellings the last in byte order counts. Everything else is ignored.
func zspec_JSONMessage_UnmarshalJSON(m *JSONMessage, data []byte) error {
	if m.Translations == nil {
		m.Translations = map[cldrplural.Category]string{}
	}
	var text string
	if json.Unmarshal(data, &text) == nil {
		m.Translations[cldrplural.Other] = text
		return nil
	}
	var fields map[string]string
	if err := json.Unmarshal(data, &fields); err != nil {
		return err
	}
	for _, name := range slices.Sorted(maps.Keys(fields)) {
		switch strings.ToLower(name) {
		case "zero":
			m.Translations[cldrplural.Zero] = fields[name]
		case "one":
			m.Translations[cldrplural.One] = fields[name]
		case "two":
			m.Translations[cldrplural.Two] = fields[name]
		case "few":
			m.Translations[cldrplural.Few] = fields[name]
		case "many":
			m.Translations[cldrplural.Many] = fields[name]
		case "other":
			m.Translations[cldrplural.Other] = fields[name]
		case "comment":
			m.Comment = fields[name]
		case "context":
			m.Context = fields[name]
		}
	}
	return nil
}

// A message that only consists of the category "other" is written as a text, every other one as an object with
// the comment, the context and the categories in the order of CLDR.
func zspec_JSONMessage_MarshalJSON(m JSONMessage) ([]byte, error) {
	texts := m.Translations
	if len(texts) == 0 {
		texts = map[cldrplural.Category]string{cldrplural.Other: ""}
	}
	if text, ok := texts[cldrplural.Other]; ok && m.Comment == "" && m.Context == "" && len(texts) == 1 {
		return json.Marshal(text)
	}
	var out bytes.Buffer
	out.WriteString("{")
	first := true
	add := func(name string, text string) error {
		data, err := json.Marshal(text)
		if err != nil {
			return err
		}
		if !first {
			out.WriteString(",")
		}
		first = false
		out.WriteString(`"` + name + `": `)
		out.Write(data)
		return nil
	}
	if m.Comment != "" {
		if err := add("comment", m.Comment); err != nil {
			return nil, err
		}
	}
	if m.Context != "" {
		if err := add("context", m.Context); err != nil {
			return nil, err
		}
	}
	for _, cat := range []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Two, cldrplural.Few, cldrplural.Many, cldrplural.Other} {
		if text, ok := texts[cat]; ok {
			if err := add(strings.ToLower(cat.String()), text); err != nil {
				return nil, err
			}
		}
	}
	out.WriteString("}")
	return out.Bytes(), nil
}

// All messages, sorted by their keys.
func zspec_jsonCatalog_MarshalJSON(c jsonCatalog) ([]byte, error) {
	all := JSONMessages{}
	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
		for key, msg := range c.lookupMap[ctx] {
			all[key] = msg
		}
	}
	var out bytes.Buffer
	out.WriteString("{")
	for i, key := range slices.Sorted(maps.Keys(all)) {
		if i > 0 {
			out.WriteString(",")
		}
		k, err := json.Marshal(key)
		if err != nil {
			return nil, err
		}
		out.Write(k)
		out.WriteString(":")
		v, err := json.Marshal(all[key])
		if err != nil {
			return nil, err
		}
		out.Write(v)
	}
	out.WriteString("}")
	return out.Bytes(), nil
}

func zspec__NewJSONEncoder(w io.Writer) *JSONEncoder { return &JSONEncoder{w: w} }
func zspec__NewJSONDecoder() *JSONDecoder            { return &JSONDecoder{} }

func zspec_JSONEncoder_Encode(enc JSONEncoder, cat JSONCatalog) error {
	if cat == nil {
		_, err := enc.w.Write([]byte("{}"))
		return err
	}
	j := json.NewEncoder(enc.w)
	j.SetIndent("", "  ")
	return j.Encode(cat)
}
