package hs

// Generated by gen.sh.
var Harnesses = map[string]func(){
	"C90_base64": C90_base64,
	"C90_big": C90_big,
	"C90_binary": C90_binary,
	"C90_bytes": C90_bytes,
	"C90_chan": C90_chan,
	"C90_fmt": C90_fmt,
	"C90_io": C90_io,
	"C90_json": C90_json,
	"C90_lang": C90_lang,
	"C90_lru": C90_lru,
	"C90_regexp": C90_regexp,
	"C90_sort": C90_sort,
	"C90_strings": C90_strings,
	"C90_styles": C90_styles,
	"C90_sync": C90_sync,
	"C90_time": C90_time,
	"C90_url": C90_url,
	"C90_utf8": C90_utf8,
}
