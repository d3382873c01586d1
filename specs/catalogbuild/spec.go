//verif:package catalog

package catalog

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/internal/mo"
)

func zspec_poDecoder_Decode(d poDecoder, lang language.Tag, domain string, data []byte) (Catalog, error) {
	return zspec_poDecoder_DecodeReader(d, lang, domain, bytes.NewReader(data))
}

func zspec_poDecoder_DecodeReader(d poDecoder, lang language.Tag, domain string, r io.Reader) (Catalog, error) {
	p := po.NewParser()
	p.SetIgnoreComments(true)
	file, err := p.Parse(r)
	if err != nil {
		return nil, err
	}
	return zsBuild(file, lang, domain, d.useCLDRPlural)
}

func zspec_moDecoder_Decode(d moDecoder, lang language.Tag, domain string, data []byte) (Catalog, error) {
	return zspec_moDecoder_DecodeReader(d, lang, domain, bytes.NewReader(data))
}

func zspec_moDecoder_DecodeReader(d moDecoder, lang language.Tag, domain string, r io.Reader) (Catalog, error) {
	seeker, ok := r.(io.ReadSeeker)
	if !ok {
		data, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		seeker = bytes.NewReader(data)
	}
	file, err := mo.ParseReader(seeker)
	if err != nil {
		return nil, err
	}
	return zsBuild(file, lang, domain, d.useCLDRPlural)
}

// Every message of the file that is neither the header nor fuzzy is part of the catalogue.
func zsBuild(file *po.File, lang language.Tag, domain string, cldr bool) (Catalog, error) {
	all := PoLookupMap{}
	for ctx, msgs := range file.Messages {
		if len(msgs) == 0 {
			continue
		}
		if _, ok := all[ctx]; !ok {
			all[ctx] = map[string]*GettextMessage{}
		}
		for id, msg := range msgs {
			if id == "" || msg.Comment != nil && msg.Comment.HasFlag("fuzzy") {
				continue
			}
			all[msg.Context][msg.ID] = &GettextMessage{translations: msg.Str}
		}
	}

	header := file.Header != nil && file.Header.PluralForms != ""
	if header && cldr {
		_, cldr = cldrplural.ForLanguage(lang)
	}
	if header && !cldr && !strings.EqualFold(file.Header.Get("X-spreak-use-CLDR"), "true") {
		rule, err := poplural.Parse(file.Header.PluralForms)
		if err != nil {
			return nil, fmt.Errorf("spreak.Decoder: plural rule for po file %v#%v could not be parsed: %w", lang, domain, err)
		}
		return &GettextCatalog{language: lang, domain: domain, lookupMap: all, pluralFunc: rule.Evaluate}, nil
	}
	return &GettextCatalog{language: lang, domain: domain, lookupMap: all, pluralFunc: zsCLDR(lang)}, nil
}

// The form of a number is the position of its category in the list of categories of the language.
func zsCLDR(lang language.Tag) poplural.PluralFunc {
	rules, _ := cldrplural.ForLanguage(lang)
	forms := map[cldrplural.Category]int{}
	for i, cat := range rules.Categories {
		forms[cat] = i
	}
	return func(n any) (int, error) {
		cat, err := rules.Evaluate(n)
		if err != nil {
			return 0, err
		}
		return forms[cat], nil
	}
}

func zspec__NewPoDecoder() Decoder     { return &poDecoder{} }
func zspec__NewPoCLDRDecoder() Decoder { return &poDecoder{useCLDRPlural: true} }
func zspec__NewMoDecoder() Decoder     { return &moDecoder{} }
func zspec__NewMoCLDRDecoder() Decoder { return &moDecoder{useCLDRPlural: true} }

func zspec__NewJSONCatalog(lang language.Tag, domain string) JSONCatalog {
	rules, _ := cldrplural.ForLanguage(lang)
	return &jsonCatalog{language: lang, domain: domain, pluralSet: rules, lookupMap: jsonLookupMap{}}
}

func zspec__NewJSONCatalogWithMessages(lang language.Tag, domain string, messages JSONMessages) (JSONCatalog, error) {
	rules, _ := cldrplural.ForLanguage(lang)
	c := &jsonCatalog{language: lang, domain: domain, pluralSet: rules, lookupMap: jsonLookupMap{}}
	for _, key := range slices.Sorted(maps.Keys(messages)) {
		if err := zsSet(c, key, messages[key]); err != nil {
			return nil, err
		}
	}
	return c, nil
}

func zspec_JSONDecoder_Decode(d JSONDecoder, lang language.Tag, domain string, data []byte) (Catalog, error) {
	c := zspec__NewJSONCatalog(lang, domain)
	if err := json.Unmarshal(data, c); err != nil {
		return nil, err
	}
	return c, nil
}

func zspec_jsonCatalog_UnmarshalJSON(c *jsonCatalog, data []byte) error {
	file := JSONMessages{}
	if err := json.Unmarshal(data, &file); err != nil {
		return err
	}
	if len(file) == 0 {
		return errors.New("spreak: File contains no translations")
	}
	for _, key := range slices.Sorted(maps.Keys(file)) {
		if err := zsSet(c, key, file[key]); err != nil {
			return err
		}
	}
	return nil
}

func zsSet(c *jsonCatalog, key string, src *JSONMessage) error {
	if key == "" {
		return errors.New("spreak: The message key must not be empty")
	}
	if src == nil {
		return fmt.Errorf("spreak: No message for \"%s\" defined", key)
	}
	if src.Context != "" && !strings.HasSuffix(key, "_"+src.Context) {
		return fmt.Errorf("spreak: Key does not match the context - should end with '_%s'", src.Context)
	}
	if _, ok := src.Translations[cldrplural.Other]; !ok {
		return fmt.Errorf("spreak: \"%s\" does not have an \"other\" value, but is required", key)
	}
	msg := &JSONMessage{Comment: src.Comment, Context: src.Context, Translations: maps.Clone(src.Translations)}
	zsApply(c.pluralSet.Categories, msg)
	if _, ok := c.lookupMap[src.Context]; !ok {
		c.lookupMap[src.Context] = map[string]*JSONMessage{}
	}
	c.lookupMap[src.Context][key] = msg
	return nil
}

// A message with a plural has exactly the categories of the language.
func zsApply(categories []cldrplural.Category, msg *JSONMessage) {
	if _, ok := msg.Translations[cldrplural.Other]; ok && len(msg.Translations) == 1 {
		return
	}
	for cat := range cldrplural.CategoryNames {
		if slices.Contains(categories, cat) {
			if _, ok := msg.Translations[cat]; !ok {
				msg.Translations[cat] = ""
			}
		} else {
			delete(msg.Translations, cat)
		}
	}
}

func zspec__ApplyPluralCategoriesToJSONMessage(lang language.Tag, msg *JSONMessage) {
	if msg == nil || msg.Translations == nil {
		return
	}
	rules, _ := cldrplural.ForLanguage(lang)
	zsApply(rules.Categories, msg)
}

func zspec_jsonCatalog_Messages(c jsonCatalog) JSONMessages {
	all := JSONMessages{}
	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
		for key, msg := range c.lookupMap[ctx] {
			all[key] = &JSONMessage{Comment: msg.Comment, Context: msg.Context, Translations: maps.Clone(msg.Translations)}
		}
	}
	return all
}

func zspec_GettextCatalog_Messages(c *GettextCatalog) PoLookupMap {
	all := PoLookupMap{}
	for ctx := range c.lookupMap {
		all[ctx] = map[string]*GettextMessage{}
		for id, msg := range c.lookupMap[ctx] {
			all[ctx][id] = &GettextMessage{translations: maps.Clone(msg.translations)}
		}
	}
	return all
}

func zspec_GettextMessage_Translations(m GettextMessage) map[int]string {
	return maps.Clone(m.translations)
}

func zspec_GettextMessage_Clone(m GettextMessage) *GettextMessage {
	return &GettextMessage{translations: maps.Clone(m.translations)}
}

func zspec_JSONMessage_Clone(m JSONMessage) *JSONMessage {
	return &JSONMessage{Comment: m.Comment, Context: m.Context, Translations: maps.Clone(m.Translations)}
}
