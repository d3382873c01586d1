//verif:package catalog/poplural
package poplural

import "golang.org/x/text/language"

// zsBuiltIn stands for the table of built-in rules.
func zsBuiltIn(lang string) *Rule { return nil }

func zspec__ForLanguage(lang language.Tag) (PluralFunc, bool) {
	for n := lang; !n.IsRoot(); n = n.Parent() {
		r := zsBuiltIn(n.String())
		if r != nil {
			return r.Evaluate, true
		}
		base, conf := n.Base()
		if conf < language.High {
			continue
		}
		if r = zsBuiltIn(base.String()); r != nil {
			return r.Evaluate, true
		}
	}
	return zsBuiltIn("en").Evaluate, false
}
