//verif:package internal/mo

package mo

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
)

func zspec__ParseBytes(data []byte) (*po.File, error) {
	return zspec__ParseReader(bytes.NewReader(data))
}

func zspec__ParseReader(r io.ReadSeeker) (*po.File, error) {
	var order binary.ByteOrder
	var magic uint32
	if err := binary.Read(r, binary.LittleEndian, &magic); err != nil {
		return nil, err
	}
	switch magic {
	case 0x950412de:
		order = binary.LittleEndian
	case 0xde120495:
		order = binary.BigEndian
	default:
		return nil, ErrInvalidMagicNumber
	}

	var head struct {
		MajorVersion uint16
		MinorVersion uint16
		MsgIDCount   uint32
		MsgIDOffset  uint32
		MsgStrOffset uint32
		HashSize     uint32
		HashOffset   uint32
	}
	if err := binary.Read(r, order, &head); err != nil {
		return nil, err
	}
	if head.MajorVersion > 1 || head.MinorVersion > 1 {
		return nil, errors.New("invalid version")
	}

	if _, err := r.Seek(int64(head.MsgIDOffset), io.SeekStart); err != nil {
		return nil, err
	}
	var entries []*msgData
	for i := uint32(0); i < head.MsgIDCount; i++ {
		e := &msgData{}
		if err := binary.Read(r, order, &e.idLength); err != nil {
			return nil, err
		}
		if err := binary.Read(r, order, &e.idOffset); err != nil {
			return nil, err
		}
		entries = append(entries, e)
	}
	if _, err := r.Seek(int64(head.MsgStrOffset), io.SeekStart); err != nil {
		return nil, err
	}
	for _, e := range entries {
		if err := binary.Read(r, order, &e.translationLength); err != nil {
			return nil, err
		}
		if err := binary.Read(r, order, &e.translationOffset); err != nil {
			return nil, err
		}
	}

	file := po.NewFile()
	for _, e := range entries {
		id, err := zsText(r, e.idOffset, e.idLength)
		if err != nil {
			return nil, err
		}
		text, err := zsText(r, e.translationOffset, e.translationLength)
		if err != nil {
			return nil, err
		}
		if id == "" {
			file.Header = zsHeader(text)
			continue
		}
		msg := po.NewMessage()
		msg.Str[0] = text
		if ctx, rest, ok := strings.Cut(id, "\x04"); ok {
			msg.Context, id = ctx, rest
		}
		msg.ID = id
		if singular, plural, ok := strings.Cut(id, "\x00"); ok {
			msg.ID, msg.IDPlural = singular, plural
			for i, form := range strings.Split(text, "\x00") {
				msg.Str[i] = form
			}
		}
		file.AddMessage(msg)
	}
	return file, nil
}

// The bytes from pos to pos+n, all of them.
func zsText(r io.ReadSeeker, pos, n uint32) (string, error) {
	if _, err := r.Seek(int64(pos), io.SeekStart); err != nil {
		return "", err
	}
	data, err := io.ReadAll(io.LimitReader(r, int64(n)))
	if err != nil {
		return "", err
	}
	if len(data) < int(n) {
		return "", io.ErrUnexpectedEOF
	}
	return string(data), nil
}

func zsHeader(text string) *po.Header {
	h := &po.Header{}
	for _, line := range strings.Split(text, "\n") {
		if key, val, ok := strings.Cut(line, ":"); ok {
			h.Set(strings.TrimSpace(key), strings.TrimSpace(val))
		}
	}
	return h
}
