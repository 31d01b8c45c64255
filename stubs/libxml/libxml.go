// Package libxml is an offline stand-in for github.com/amarin/libxml v0.1.2, which cannot be fetched here.
// ParseXMLFile feeds the tokens of encoding/xml, in document order, to the processor; the first error stops the parse.
package libxml

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
)

// TokenProcessor receives tokens.
type TokenProcessor interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessEndElement(element xml.EndElement) error
	ProcessCharData(data xml.CharData) error
	ProcessComment(comment xml.Comment) error
	ProcessProcInst(procInst xml.ProcInst) error
	ProcessDirective(directive xml.Directive) error
}

// ParseXMLFile parses file by path.
func ParseXMLFile(filePath string, processor TokenProcessor) error {
	file, err := os.Open(filePath)
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}

	defer func() { _ = file.Close() }()

	return ParseXML(file, processor)
}

// ParseXML parses the reader given.
func ParseXML(source io.Reader, processor TokenProcessor) error {
	decoder := xml.NewDecoder(source)

	for {
		token, err := decoder.Token()
		switch {
		case errors.Is(err, io.EOF):
			return nil
		case err != nil:
			return fmt.Errorf("token: %w", err)
		}

		switch t := token.(type) {
		case xml.StartElement:
			err = processor.ProcessStartElement(t)
		case xml.EndElement:
			err = processor.ProcessEndElement(t)
		case xml.CharData:
			err = processor.ProcessCharData(t)
		case xml.Comment:
			err = processor.ProcessComment(t)
		case xml.ProcInst:
			err = processor.ProcessProcInst(t)
		case xml.Directive:
			err = processor.ProcessDirective(t)
		}

		if err != nil {
			return fmt.Errorf("process: %w", err)
		}
	}
}
