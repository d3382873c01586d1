//verif:package catalog/cldrplural

package cldrplural

func zspec_Category_String(c Category) string {
	switch c {
	case Zero:
		return "Zero"
	case One:
		return "One"
	case Two:
		return "Two"
	case Few:
		return "Few"
	case Many:
		return "Many"
	case Other:
		return "Other"
	}
	return "unknown"
}
