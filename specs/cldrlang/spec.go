//verif:package catalog/cldrplural
package cldrplural

import "golang.org/x/text/language"

// zsBuiltIn stands for the table of built-in rules.
func zsBuiltIn(lang string) *RuleSet { return nil }

func zspec__ForLanguage(lang language.Tag) (*RuleSet, bool) {
	for n := lang; !n.IsRoot(); n = n.Parent() {
		r := zsBuiltIn(n.String())
		if r != nil {
			return r, true
		}
		base, conf := n.Base()
		if conf < language.High {
			continue
		}
		if r = zsBuiltIn(base.String()); r != nil {
			return r, true
		}
	}
	return zsBuiltIn("en"), false
}
