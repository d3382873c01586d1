//verif:package catalog

package catalog

import (
	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

// A text is found if the context, the identifier and a text that is not empty for the form exist.
func zsGettext(c *GettextCatalog, ctx, id string, form int) (string, error) {
	msgs, ok := c.lookupMap[ctx]
	if !ok {
		return id, &ErrMissingContext{Language: c.language, Domain: c.domain, Context: ctx}
	}
	msg, ok := msgs[id]
	if !ok {
		return id, &ErrMissingMessageID{Language: c.language, Domain: c.domain, Context: ctx, MsgID: id}
	}
	text := msg.translations[form]
	if text == "" {
		return id, &ErrMissingTranslation{Language: c.language, Domain: c.domain, Context: ctx, MsgID: id, Idx: form}
	}
	return text, nil
}

func zspec_GettextCatalog_Lookup(c *GettextCatalog, ctx, msgID string) (string, error) {
	return zsGettext(c, ctx, msgID, 0)
}

func zspec_GettextCatalog_LookupPlural(c *GettextCatalog, ctx, msgID string, n any) (string, error) {
	form, err := c.pluralFunc(n)
	if err != nil {
		return msgID, err
	}
	return zsGettext(c, ctx, msgID, form)
}

func zspec_GettextCatalog_Domain(c GettextCatalog) string { return c.domain }

func zspec_GettextCatalog_Language(c GettextCatalog) language.Tag { return c.language }

// Messages of JSON catalogues are stored under the identifier followed by the context.
func zsJSON(c *jsonCatalog, ctx, id string, cat cldrplural.Category) (string, error) {
	key := id
	if ctx != "" {
		key = id + "_" + ctx
	}
	msgs, ok := c.lookupMap[ctx]
	if !ok {
		return id, &ErrMissingContext{Language: c.language, Domain: c.domain, Context: ctx}
	}
	msg, ok := msgs[key]
	if !ok {
		return id, &ErrMissingMessageID{Language: c.language, Domain: c.domain, Context: ctx, MsgID: key}
	}
	text := msg.Translations[cat]
	if text == "" {
		return id, &ErrMissingTranslation{Language: c.language, Domain: c.domain, Context: ctx, MsgID: key, Idx: int(cat)}
	}
	return text, nil
}

func zspec_jsonCatalog_Lookup(c *jsonCatalog, ctx, msgID string) (string, error) {
	return zsJSON(c, ctx, msgID, cldrplural.Other)
}

func zspec_jsonCatalog_LookupPlural(c *jsonCatalog, ctx, msgID string, n any) (string, error) {
	cat, err := c.pluralSet.Evaluate(n)
	if err != nil {
		return msgID, err
	}
	return zsJSON(c, ctx, msgID, cat)
}

func zspec_jsonCatalog_Domain(c jsonCatalog) string { return c.domain }

func zspec_jsonCatalog_Language(c jsonCatalog) language.Tag { return c.language }

func zspec__NewErrMissingContext(lang language.Tag, domain, context string) *ErrMissingContext {
	return &ErrMissingContext{Language: lang, Domain: domain, Context: context}
}

func zspec__NewErrMissingMessageID(lang language.Tag, domain, context, msgID string) *ErrMissingMessageID {
	return &ErrMissingMessageID{Language: lang, Domain: domain, Context: context, MsgID: msgID}
}

func zspec__NewErrMissingTranslation(lang language.Tag, domain, context, msgID string, idx int) *ErrMissingTranslation {
	return &ErrMissingTranslation{Language: lang, Domain: domain, Context: context, MsgID: msgID, Idx: idx}
}
