//verif:package .

package spreak

import (
	"golang.org/x/text/language"
	"golang.org/x/text/message"
)

// A text without arguments is not a format.
func zsPrintFunc(lang language.Tag) PrintFunc {
	p := message.NewPrinter(lang)
	return func(str string, vars ...any) string {
		if len(vars) == 0 {
			return str
		}
		return p.Sprintf(str, vars...)
	}
}

func zspec__NewDefaultPrinter() Printer { return &defaultPrinter{} }

// The function of a language formats in this language, whether it was announced or not.
func zspec_defaultPrinter_Init(d *defaultPrinter, languages []language.Tag) {
	d.printers = map[language.Tag]PrintFunc{}
	for _, lang := range languages {
		d.printers[lang] = zsPrintFunc(lang)
	}
}

func zspec_defaultPrinter_GetPrintFunc(d *defaultPrinter, lang language.Tag) PrintFunc {
	if f, ok := d.printers[lang]; ok {
		return f
	}
	return zsPrintFunc(lang)
}

// A single function is used for every language.
func zspec_printFunctionWrapper_Init(p *printFunctionWrapper, languages []language.Tag) {}

func zspec_printFunctionWrapper_GetPrintFunc(p *printFunctionWrapper, lang language.Tag) PrintFunc {
	return p.f
}

// A language that is named twice is handled once.
func zalt1_defaultPrinter_Init(d *defaultPrinter, languages []language.Tag) {
	d.printers = map[language.Tag]PrintFunc{}
	for _, lang := range languages {
		if _, ok := d.printers[lang]; !ok {
			d.printers[lang] = zsPrintFunc(lang)
		}
	}
}
