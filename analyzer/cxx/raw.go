package cxx

import (
	"fmt"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/golang"
)

// CheckRaw reports symbolic text that is spliced into the code unescaped, and
// returns the source without the marks of such text in comments.
func CheckRaw(src string) (string, []string) {
	strip := strings.NewReplacer(golang.RawOpen, "", golang.RawClose, "")
	if !strings.Contains(src, golang.RawOpen) {
		return src, nil
	}
	var flaws []string
	for i := 0; i < len(src); {
		end := i + 1
		switch {
		case strings.HasPrefix(src[i:], "//"):
			if end = strings.IndexByte(src[i:], '\n'); end < 0 {
				end = len(src)
			} else {
				end += i
			}
			i = end
			continue
		case strings.HasPrefix(src[i:], "/*"):
			if end = strings.Index(src[i+2:], "*/"); end < 0 {
				end = len(src)
			} else {
				end += i + 4
			}
			i = end
			continue
		case src[i] == '"' || src[i] == '\'':
			for end = i + 1; end < len(src) && src[end] != src[i] && src[end] != '\n'; end++ {
				if src[end] == '\\' {
					end++
				}
			}
			if end < len(src) {
				end++
			} else {
				end = len(src)
			}
			if strings.Contains(src[i:end], golang.RawOpen) {
				flaws = append(flaws, fmt.Sprintf("unescaped rule text in a literal at line %d: %s", 1+strings.Count(src[:i], "\n"), absint.Show(strip.Replace(src[i:end]))))
			}
		case strings.HasPrefix(src[i:], golang.RawOpen):
			j := strings.Index(src[i:], golang.RawClose)
			if j < 0 {
				j = 0
			}
			end = i + j + len(golang.RawClose)
			flaws = append(flaws, fmt.Sprintf("rule text without syntax at line %d: %s", 1+strings.Count(src[:i], "\n"), absint.Show(strip.Replace(src[i:end]))))
		}
		i = end
	}
	return strip.Replace(src), flaws
}
