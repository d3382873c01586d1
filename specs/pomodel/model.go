//verif:package catalog/po

package po

import (
	"cmp"
	"fmt"
	"slices"
	"strings"
	"time"
)

// A reference is a position in a file, or a file.
func zspec_Reference_String(r Reference) string {
	if r.Line <= 0 {
		return r.Path
	}
	return fmt.Sprintf("%s:%d:%d", r.Path, r.Line, r.Column)
}

func zspec_Reference_Equal(r Reference, o *Reference) bool {
	return r.Path == o.Path && r.Line == o.Line && r.Column == o.Column
}

func zspec__NewComment() *Comment {
	return &Comment{References: []*Reference{}, Flags: []string{}}
}

func zspec__NewMessage() *Message {
	return &Message{Comment: &Comment{References: []*Reference{}, Flags: []string{}}, Str: map[int]string{}}
}

func zspec_Comment_HasFlag(c *Comment, flag string) bool {
	return slices.Contains(c.Flags, flag)
}

// A flag is kept once.
func zspec_Comment_AddFlag(c *Comment, flag string) {
	if !slices.Contains(c.Flags, flag) {
		c.Flags = append(c.Flags, flag)
		slices.Sort(c.Flags)
	}
}

func zsSort(refs []*Reference) {
	slices.SortFunc(refs, func(a, b *Reference) int {
		if a.Path != b.Path {
			return cmp.Compare(a.Path, b.Path)
		}
		if a.Line != b.Line {
			return cmp.Compare(a.Line, b.Line)
		}
		return cmp.Compare(a.Column, b.Column)
	})
}

func zspec_Comment_AddReference(c *Comment, ref *Reference) {
	if len(c.References) == 0 {
		c.References = []*Reference{ref}
		return
	}
	c.References = append(c.References, ref)
	zsSort(c.References)
}

func zspec_Message_AddReference(m *Message, ref *Reference) {
	if m.Comment == nil {
		m.Comment = zspec__NewComment()
	}
	zspec_Comment_AddReference(m.Comment, ref)
}

// Every element of both lists once, those of the first list first.
func zspec__mergeStringArrays(left, right []string) []string {
	var all []string
	known := map[string]bool{}
	for _, l := range left {
		if !known[l] {
			known[l] = true
			all = append(all, l)
		}
	}
	for _, r := range right {
		if !known[r] {
			known[r] = true
			all = append(all, r)
		}
	}
	return all
}

func zsLines(own, other string) string {
	if other == "" {
		return own
	}
	return strings.TrimSpace(strings.Join(mergeStringArrays(strings.Split(own, "\n"), strings.Split(other, "\n")), "\n"))
}

// The lines, flags and references of both, in their order.
func zspec_Comment_Merge(c *Comment, other *Comment) {
	if other == nil {
		return
	}
	c.Translator = zsLines(c.Translator, other.Translator)
	c.Extracted = zsLines(c.Extracted, other.Extracted)
	c.Flags = mergeStringArrays(c.Flags, other.Flags)
	for _, ref := range other.References {
		if !slices.ContainsFunc(c.References, func(own *Reference) bool {
			return own.Path == ref.Path && own.Line == ref.Line && own.Column == ref.Column
		}) {
			c.References = append(c.References, ref)
		}
	}
	slices.Sort(c.Flags)
	zsSort(c.References)
}

// The texts of the message stay, only a missing plural id is taken over.
func zspec_Message_Merge(m *Message, other *Message) {
	if other == nil {
		return
	}
	if m.Comment == nil {
		m.Comment = zspec__NewComment()
	}
	m.Comment.Merge(other.Comment)
	if m.IDPlural == "" {
		m.IDPlural = other.IDPlural
	}
}

func zspec__PlaceholderHeader(packageName, copyrightHolder, bugsAddress string) *Header {
	return &Header{
		Comment: &Comment{
			Translator: "SOME DESCRIPTIVE TITLE.\nCopyright (C) YEAR " + copyrightHolder + "\n" +
				"This file is distributed under the same license as the " + packageName + " package.\nFIRST AUTHOR <EMAIL@ADDRESS>, YEAR.\n",
			Flags: []string{"fuzzy"},
		},
		ProjectIDVersion:        packageName,
		ReportMsgidBugsTo:       bugsAddress,
		POTCreationDate:         time.Now().Format("2006-01-02 15:04-0700"),
		PORevisionDate:          "YEAR-MO-DA HO:MI+ZONE",
		LastTranslator:          "FULL NAME <EMAIL@ADDRESS>",
		LanguageTeam:            "LANGUAGE <LL@li.org>",
		MimeVersion:             "1.0",
		ContentType:             "text/plain; charset=UTF-8",
		ContentTransferEncoding: "8bit",
	}
}

// The same with other ways to recognise what is contained already.
func zalt1__mergeStringArrays(left, right []string) []string {
	var all []string
	known := map[string]struct{}{}
	for _, l := range left {
		if _, ok := known[l]; !ok {
			known[l] = struct{}{}
			all = append(all, l)
		}
	}
	for _, r := range right {
		if _, ok := known[r]; !ok {
			known[r] = struct{}{}
			all = append(all, r)
		}
	}
	return all
}

func zalt2__mergeStringArrays(left, right []string) []string {
	var all []string
	for _, l := range left {
		if !slices.Contains(all, l) {
			all = append(all, l)
		}
	}
	for _, r := range right {
		if !slices.Contains(all, r) {
			all = append(all, r)
		}
	}
	return all
}

func zalt3__mergeStringArrays(left, right []string) []string {
	var all []string
	known := map[string]bool{}
	for _, v := range slices.Concat(left, right) {
		if !known[v] {
			known[v] = true
			all = append(all, v)
		}
	}
	return all
}

func zalt4__mergeStringArrays(left, right []string) []string {
	var all []string
	known := map[string]struct{}{}
	for _, v := range slices.Concat(left, right) {
		if _, ok := known[v]; !ok {
			known[v] = struct{}{}
			all = append(all, v)
		}
	}
	return all
}

// One reference needs not be sorted.
func zalt1_Comment_AddReference(c *Comment, ref *Reference) {
	c.References = append(c.References, ref)
	zsSort(c.References)
}

func zalt1_Message_AddReference(m *Message, ref *Reference) {
	if m.Comment == nil {
		m.Comment = zspec__NewComment()
	}
	zalt1_Comment_AddReference(m.Comment, ref)
}
