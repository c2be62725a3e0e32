#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["GopherHTMLParser.parsed"], hook_needed=None)))
R = "gopher_render/rendering.py"; PA = "gopher_render/_parser.py"; S = "gopher_render/_selectors.py"
W = "gopher_render/_textwrap.py"; N = "gopher_render/_namedict.py"; T = "gopher_render/code_themes"

p("C01", "Every visible character survives conversion, once and in document order",
  "With the default renderers and text output, the visible (non-whitespace) characters of the document's text appear in the output exactly once each, in document order, with nothing added except the documented markers (heading hashes, list bullets and numbers, quote prefixes, emphasis, code and link punctuation, link targets and the footer). Braces, percent signs, backslashes and any other character of the text are literal data, never interpreted as formatting. (Control characters and Unicode line separators are not claimed.)",
  ["inputs"], "all texts (any Unicode scalar value) in any nesting of the supported block and inline elements, including unknown elements and text outside any element",
  "Tests check a dozen fixed ASCII words; a loss that needs a particular character, a line break in a particular place or a particular nesting is never sampled.",
  [PA, R, W], [("handle_data, DataParser, TagParser.render, Renderer.render, textwrap", "_parser.py / rendering.py / _textwrap.py")])
p("C02", "Reflowed text never exceeds the configured width",
  "Every output line produced for a paragraph, list item or definition (alone, or nested in lists, quotes or divs) with the default renderers is at most as wide as the parser's configured width, root margins and the enclosing quote prefixes and list markers included, however long its words are, as long as at least one column is left for text. The width comes from the parser's width argument, or from the box when one is given.",
  ["inputs", "configurations"], "all texts, all widths that leave at least one column of content, nestings of li/dd/blockquote/div/p",
  "Tests use width 67 and short text; boundary cases (a word of exactly the remaining width, a marker that eats the last column, nested prefixes) are not reached.",
  [R, W, PA], [("Box.inner_width_excluding_line_template", "rendering.py"), ("AnsiAwareTextWrapper._wrap_chunks", "_textwrap.py")])
p("C03", "Wrapping is greedy, breaks only between words and loses nothing",
  "Wrapping a text to a width yields lines that, read in order, contain exactly the text's words in order; a word is split only if it is longer than the width (it then starts in the room left on the line) or after one of its hyphens, lines are never wider than the width, and a line is ended only when the next word does not fit on it. Initial and subsequent indents prefix the first and the other lines and count towards the width.",
  ["inputs", "configurations"], "all texts of words and whitespace, all positive widths and smaller indents",
  "One wrapped paragraph of repeated words at width 67 is tested; exact-fit, over-long-word and whitespace-at-the-break cases are not.",
  [W, R], [("AnsiAwareTextWrapper._wrap_chunks / wrap", "_textwrap.py"), ("left_justify", "rendering.py")], observe=["_textwrap.wrap", "rendering.left_justify"])
p("C04", "Justification pads every line to the exact width and keeps the words",
  "For words separated by single spaces, full justification makes every line but the last that contains at least two words exactly the requested width, by widening the gaps between words so that gaps differ by at most one space with the wider ones first; it changes neither the words, their order, the line breaks nor the indent. Right and centre justification pad each wrapped line with spaces only, on the left (right) or evenly on both sides (centre), to the requested width, and left justification adds nothing.",
  ["inputs", "configurations"], "all texts and all positive widths, with and without indents",
  "No test uses any justification but the default.",
  [R], [("full_justify, right_justify, center_justify, left_justify", "rendering.py")], observe=["rendering.justifications", "ParagraphRenderer"])
p("C05", "ANSI styling is invisible to layout and never damaged",
  "Escape sequences in the content or in the templates of lines take no columns when text is wrapped, justified, centred or padded to a box: every line's visible width is what it would be allowed without them. No layout step splits, drops, duplicates, reorders or alters an escape sequence, and the visible text keeps its characters.",
  ["inputs", "configurations"], "all texts with escape sequences (ESC [ digits and semicolons m) at any positions, all widths, all justifications, capitalisation, bordered boxes",
  "No test contains an escape sequence.",
  [W, R], [("_len, AnsiAwareTextWrapper", "_textwrap.py"), ("full_justify, center, right, BlockRenderer._border_render", "rendering.py")], observe=["_textwrap.wrap", "rendering.justifications", "BlockRenderer.render"])
p("C06", "Nested boxes fit exactly: widths add up and borders line up",
  "The content width available inside a box is the document width minus the left and right margins, borders, paddings and line prefixes of the box and of all its ancestors, and a box's own bordered and padded areas are what its parent leaves after its margin (and border). Consequently every line of a rendered block with borders and padding, at any nesting depth, has the same width and its right edge falls on the same column, for content that fits.",
  ["configurations", "inputs"], "all non-negative margins, borders, paddings, line prefixes and widths; nesting chains of boxes",
  "Every default renderer has zero padding and no border, so tests exercise the arithmetic only with zeroes.",
  [R], [("Box, BlockRenderer._generate_box/_border_render/_outer_render", "rendering.py")], observe=["Box.inner_width*", "Box.padded_width", "Box.bordered_width", "BlockRenderer.render"])
p("C07", "Margins and padding produce exactly the configured blank space",
  "A block's top and bottom margin add exactly that many line breaks before and after it, its left margin indents every one of its lines by exactly that many spaces, its padding adds that many blank lines inside and columns to the left of its text, and the margins of the parser's own box do the same for the whole document. Sibling blocks therefore stay separated by the sum of the facing margins, and no blank space appears from anywhere else (in particular not from whitespace between block elements in the source). Blank space at line ends is not counted; list items drop the blank lines inside them.",
  ["configurations", "inputs"], "all margins and paddings, all texts, sequences of blocks, any whitespace between block tags",
  "Tests look at default margins of single blocks written without whitespace between tags.",
  [R, PA], [("BlockRenderer._outer_render/_border_render", "rendering.py"), ("GopherHTMLParser._indent_body/close", "_parser.py")])
p("C08", "Quote prefixes and list markers are applied to exactly the right lines",
  "A blockquote puts its prefix at the start of every line of its content and changes nothing else of it, at every nesting level; a list item or definition puts its marker on its first line only, directly before the start of its text, and indents all its other lines by the marker's width. Several items keep their own markers, in order, one marker per item, also when items nest, wrap over several lines or contain block elements such as pre or nested lists. A marker's width is what is seen of it: escape sequences take no columns and escaped braces are one brace each.",
  ["inputs", "configurations"], "all texts (wrapping over any number of lines), nested quotes and lists, custom templates",
  "Tests use one-word items that never wrap.",
  [R], [("BlockQuoteRenderer, ListItemRenderer, DefinitionListItemRenderer", "rendering.py")])
p("C09", "Ordered list items are numbered consecutively",
  "The k-th item element of an ordered list is labelled start + (k-1) * step with the configured start and step (1 and 1 by default), whatever text, whitespace, comments or other elements stand between the items and however lists nest. The label's width is accounted for in the item's hanging indent. A configured label template is used as it is, its escaped braces being literal braces.",
  ["inputs", "configurations"], "all list lengths, any whitespace between items, nested lists, any start index and step",
  "The one ordered-list test writes three items with no whitespace between them.",
  [R, PA], [("OrderedListItemRenderer._get_ordinal", "rendering.py")])
p("C10", "Headings carry their level's markers and configured decoration",
  "A heading of level n renders as its text between n hash signs on each side, for every level 1 to 6 and every text. With the plain header renderer, letter-spacing puts exactly the configured filler between adjacent characters, capitalisation upper-cases, centring centres within the available width, and an underline is exactly as long as the text (or as the available width when full) and is placed on the line below. A heading with line breaks is spread, centred and capitalised line by line, and has one underline, below its last line, as long as its longest line.",
  ["inputs", "configurations"], "all levels, texts and settings combinations",
  "Each level is tested with one word; the other settings are untested.",
  [R], [("HeaderRenderer, MarkdownHeaderRenderer, spread, center", "rendering.py")])
p("C11", "Inline markup wraps exactly its own content and nests",
  "Inline elements' output is their configured markers around exactly the output of their content: the default markers are _ for em, i, u and ins, ** for strong and b, ~~ for s and del, a backtick for single-line code spans (code with line breaks goes between two fences of three backticks, each ending its line), none for span; a line break element is one newline. Nesting inline elements nests their markers, capitalisation affects only the element's own content, and code directly inside pre gets no markers.",
  ["inputs", "programs"], "all nestings of inline elements and all texts",
  "Each element is tested once, alone, with one word.",
  [R, PA], [("InlineRenderer, CodeRenderer, BreakRenderer, TagParser.render", "rendering.py / _parser.py")])
p("C12", "Whitespace outside pre collapses but never glues or splits words",
  "Outside pre, every run of spaces, tabs and line breaks in a text collapses to a single space, and text without such runs is unchanged, so that two words are separated in the result exactly if they were separated in the source, including at the start and end of a text next to an inline tag; white space after a line break element is no part of the next line. Other white space, such as a no-break space, is text like any other character. Paragraphs have no leading or trailing whitespace in their text.",
  ["inputs"], "all texts",
  "Two fixed strings are tested.",
  [PA, R], [("DataParser.__init__", "_parser.py"), ("ParagraphRenderer._inner_render", "rendering.py")])
p("C13", "Preformatted text keeps its lines and spacing verbatim",
  "Inside pre, every source line appears as one output line with its characters, tabs and internal and leading spaces unchanged, behind the configured indent, however long it is; only trailing whitespace may differ, and a final line break adds no line. This holds for all text inside the pre element, inline children included, and stops exactly at its end tag. (A pre inside a list item or definition is re-wrapped where a line is longer than the item.)",
  ["inputs", "configurations"], "all texts of printable characters, spaces, tabs and newlines; any indent; preceding and following siblings",
  "One three-line code sample is tested, and only two of its lines are compared.",
  [PA, R], [("_in_pre, DataParser, PreRenderer", "_parser.py / rendering.py")])
p("C14", "Selectors match exactly the elements that CSS says they match",
  "For every supported selector form (type, universal, class, id, attribute presence and =, ~=, |=, ^=, $=, *=, negation, first/last/nth/nth-last-child with any an+b argument, descendant, child, adjacent- and general-sibling combinators, comma lists, and compounds of these) an element matches exactly if the CSS definition says so. Text nodes are never matched and never count as siblings or children, and an unsupported simple selector (another pseudo-class, a pseudo-element) matches no element rather than some. Element and attribute names match in any case; classes, ids and values only as written.",
  ["inputs", "programs"], "all element trees and all selectors of the supported forms",
  "Tests enumerate a few fixed trees and selectors; nth-child beyond small literals and attribute operators are untested.",
  [S, PA], [("tag_matches and the _*_matches functions", "_selectors.py")], observe=["tag_matches", "RendererMap.get_for_tag"])
p("C15", "Rules cascade by specificity, later rules winning ties",
  "The renderer chosen for an element is the one of the matching rule with the highest specificity, the last-declared among equals that name a renderer; each setting independently takes its value from the most specific (then latest) matching rule that gives it, whether or not that rule names a renderer, and rules that do not match contribute nothing. Specificity compares lexicographically as (ids, classes/attributes/pseudo-classes, types), and a rule with several selectors counts with its most specific matching one. Own rules are added to the default ones.",
  ["inputs", "configurations"], "all sets of rules, all specificities of any magnitude, all elements",
  "No test compares two rules matching the same element except through the built-in list and quote rules.",
  [S, PA], [("RendererMap.get_for_tag", "_parser.py"), ("Specificity, _compare_specificity, tag_matches", "_selectors.py")], observe=["RendererMap.get_for_tag", "Specificity"])
p("C16", "Renderer settings resolve by class, then rule, and never leak",
  "A renderer instance's settings are the union of its classes' settings with the most derived class that defines a key winning, overridden by the settings of the rules matching the element. Rendering with some settings never changes the settings seen by another element, class, renderer map or later conversion, so converting the same document twice gives the same output.",
  ["configurations", "histories"], "all class hierarchies with overridden settings, all rule settings, all sequences of instantiations and conversions",
  "Tests never define a renderer class or pass settings.",
  [R, PA, N], [("_RendererMeta, Renderer.__new__, _adjust_settings", "rendering.py"), ("LinkParser/TagParser.render", "_parser.py")], observe=["Renderer.settings", "GopherHTMLParser.parsed"])
p("C17", "Link references and extracted links correspond one to one",
  "Links and images that are not placed inline are numbered 1, 2, 3, ... in document order; each number appears once at the link's place in the text and once with its target in the extracted list, which is in document order at the end of the document (footer) or of the enclosing block element, or of the document for those outside any (after block). Links and images placed inline are rendered in place with their target, consume no number and are not listed.",
  ["inputs", "configurations", "programs"], "all documents with any number and nesting of links and images, all link and image placements",
  "No test contains a link or an image.",
  [PA, R], [("handle_starttag (numbering, pending links), close (footer), LinkParser", "_parser.py"), ("LinkRenderer, ImageRenderer, Extracted*Renderer", "rendering.py")])
p("C18", "Rendered links and images carry the right description, target and title",
  "An inline link renders as [text](target), with the quoted title appended if it has one, and an inline image as ![alt](source), with Image standing in for missing alternative text. An extracted link shows its number, its text (or the image's alternative text) cut to the configured length with an ellipsis only if something was cut, its target unchanged, and its title if it has one (an image whose alternative text was cut shows the whole of it there instead). White space at the ends of a text is not part of it. Configured templates and capitals apply to links and images alike.",
  ["inputs", "configurations"], "all link texts, titles, alternative texts, targets and description lengths",
  "No test contains a link or an image.",
  [PA, R], [("LinkRenderer, ImageRenderer, ExtractedLinkRenderer, ExtractedImageLinkRenderer", "rendering.py"), ("LinkParser", "_parser.py")])
p("C19", "Every gophermap link is one well-formed menu line",
  "In gophermap output each extracted link or image occupies exactly one line of its own that consists of the item type, the bracketed number and description, and the selector, host and port separated by single tabs, starting in column one with nothing before or after, whatever margins, borders or indents surround it, and no line of the document's own text has a tab in it, which would make it a menu line. No tab or line break in a link's text, title, alternative text or target can add, split or shift fields (they become spaces in descriptions and are removed from selectors). With after-block placement the lines follow the outermost block element, and those of links at the top level come at the end.",
  ["inputs", "configurations"], "all link texts, titles, alternative texts and targets; footer placement, and after-block placement with the link at the top level",
  "No test produces gophermap output.",
  [PA, R], [("ExtractedLinkRenderer / ExtractedImageLinkRenderer gophermap branch", "rendering.py"), ("GopherHTMLParser.close", "_parser.py")])
p("C20", "Link targets map to the right gopher type, selector, host and port",
  "Web links (http, https, any unknown scheme, or anything that is not a valid URL) become type h with selector URL: followed by the unchanged target at the configured host and port; relative targets keep their path at the configured host and port; gopher URLs, and targets without a scheme that name a host (//host/path), keep their path, host (in lower case; the configured one if a gopher URL has none) and port, the port defaulting to 70. The item type of gopher and relative targets follows the extension of the path's last segment, ignoring case: none is a menu (1), html and htm h, gif g, the known image types I, the known text types 0, everything else binary (9). Leading dots of a name start no extension.",
  ["inputs", "configurations"], "all target strings, hosts and ports",
  "No test contains a link.",
  [PA], [("LinkParser._parse_href, _guess_type", "_parser.py")], observe=["LinkParser.gopher_link"])
p("C21", "Malformed markup never aborts or derails a conversion",
  "Unclosed elements, stray or mismatched end tags, void elements such as hr or input, attributes without values and unparsable link targets never make a conversion fail: it always completes with the document's text intact and in order, also where nesting leaves no columns for text (nests of more than a few hundred elements, which exceed the interpreter's recursion limit, are not claimed). A stray end tag that matches no open element and a void element leave the structure of everything around them unchanged, and an attribute without a value counts as one with an empty value.",
  ["inputs"], "all sequences of start tags, end tags and text, and all attribute lists, matching or not",
  "All tests use well-formed markup.",
  [PA], [("handle_starttag, handle_endtag, _get_top, close", "_parser.py")])
p("C22", "Feeding a document in pieces gives the same output as feeding it whole",
  "However the source text is cut into consecutive pieces for feeding, and whether or not comments interrupt a text, the output is the same as for the whole text fed at once.",
  ["inputs", "schedules"], "all documents and all cut positions, including inside words, whitespace runs, tags, attributes and character references",
  "Every test feeds the whole document in one call.",
  [PA], [("handle_data", "_parser.py")])
p("C23", "A reset parser behaves like a new one, and conversions are independent",
  "After reset, a parser converts any document exactly as a newly created parser with the same configuration would, whatever it was fed before and whether or not that conversion was finished. Separate parsers never influence each other, even when their conversions are interleaved.",
  ["histories", "inputs"], "all feed/close/reset histories, including interrupted ones with open elements, open pre elements and pending links; all interleavings of two parsers",
  "No test resets or reuses a parser.",
  [PA, R], [("GopherHTMLParser.reset and its per-document state", "_parser.py")])
p("C24", "Output optimisation removes trailing whitespace and nothing else",
  "With optimisation on, the output is the unoptimised output with the whitespace at the end of each line removed: same number of lines, same text, no line ends in whitespace. With it off, block lines keep their padding to the full width.",
  ["inputs", "configurations"], "all documents and configurations",
  "Tests compare neither mode with the other.",
  [PA], [("_optimise_parsed, close", "_parser.py")])
p("C25", "ANSI styles are switched on and off again exactly as configured",
  "Styled output is the enabling sequences of exactly the configured effects, font and colours, the content unchanged, and then the sequences that switch exactly those off again (or a single reset when normalising), with the codes defined by the ANSI standard; with nothing configured the content is unchanged. Colours given as a name, palette number (0 included), red-green-blue tuple or HTML colour all select that colour, for foreground and background alike, and every entry of every bundled theme is valid and takes effect.",
  ["inputs", "configurations"], "all combinations of effects, all colours of all four kinds, fonts, normalise on and off, all contents, all theme entries",
  "No test uses the ANSI renderer.",
  [R, T], [("AnsiEscapeCodeRenderer, _get_sequence_for_colour, _parse_html_colour", "rendering.py"), ("renderers tables", "code_themes")], observe=["AnsiEscapeCodeRenderer.render"])
p("C26", "Impossible gophermap configurations are rejected up front",
  "Creating a parser for gophermap output raises ValueError exactly if links are to be placed inline or no gopher host is given; every other combination of output format, placements, host and port is accepted, and a conversion with it completes.",
  ["configurations"], "all combinations of output format, link placement, image placement, host and port",
  "No test creates a gophermap parser.",
  [PA], [("GopherHTMLParser.__init__", "_parser.py")], observe=["GopherHTMLParser()"])
p("C27", "Attribute and item access of settings dictionaries agree",
  "On a settings dictionary, after any sequence of attribute and item writes and deletions, reading a name as an attribute and as an item gives the same value or fails in both ways (AttributeError and KeyError); dictionary methods are never shadowed or overwritten by assignments to other names.",
  ["histories"], "all sequences of reads, writes and deletions through either interface, all names that are not dictionary methods",
  "Each operation is tested once in isolation.",
  [N], [("namedict", "_namedict.py")], observe=["namedict"])
p("C28", "The command line tool prints the library's conversion of the source file",
  "Running the tool on an HTML or Markdown file (told by the suffix .md; Markdown is first converted to HTML, with the codehilite, extra and meta extensions and highlight as the class of highlighted code) prints the library's conversion of it to the standard output: text output at width 67 with one blank line above and below, footer links, inline images and the iced_gopher theme. With the dump option the HTML is printed first. Nothing else goes to the standard output, also for malformed documents.",
  ["inputs"], "all source files",
  "The command line entry point has no test.",
  ["gopher_render/cli.py", "gopher_render/__main__.py"], [("main", "cli.py")], observe=["stdout"])
p("C29", "Text settings of paragraphs, items and definitions take effect",
  "The configured first-line and hanging indents, justification, capitalisation, breaking of long words, breaking at hyphens and sentence spacing of a paragraph, list item or definition are applied exactly as configured (or as the defaults say: no indents, left, long words and hyphens broken, two spaces after a sentence), by a rule of the type or one that only adds settings. The text after every line break element is laid out like a text of its own, first-line indent included. A paragraph's line template surrounds each of its lines and the text gets the rest of the width. A paragraph that consists of code (or pre) only keeps its layout, unless configured otherwise.",
  ["inputs", "configurations"], "all texts and all combinations of the settings",
  "No test sets any of these.",
  [R, W], [("ParagraphRenderer, ListItemRenderer, DefinitionListItemRenderer._inner_render", "rendering.py")])
p("C30", "Removed elements leave nothing; elements without a rule are transparent",
  "An element rendered with NonRenderer contributes nothing to the output: the result does not depend on its content and is that of the document without it; links and images in it are neither listed nor numbered. An element for which no rule names a renderer is rendered with the default renderer, by default one that shows its content exactly as if the element were not there, around text and around blocks; a configured default renderer is used for those elements and for no others.",
  ["inputs", "programs"], "all contents and places of such elements (links inside removed elements not claimed)",
  "NonRenderer has no test, and no test has an element unknown to the parser.",
  [R, PA], [("NonRenderer, Renderer", "rendering.py"), ("RendererMap.get_for_tag, TagParser.render", "_parser.py")])
p("C31", "But for styling, wrapping has all options of the standard library",
  "The lines a text without escape sequences is wrapped to are those of Python's textwrap with the same options (indents, tabs, replaced and dropped white space, breaking of words and at hyphens, sentence spacing, line limit and placeholder), blank space at line ends and blank lines apart, and the same options are refused; with escape sequences in words the visible text is that of the text without them, the placeholder of a line limit included.",
  ["inputs", "configurations"], "all texts, widths and option values",
  "No test passes any option to the wrapping functions.",
  [W, R], [("AnsiAwareTextWrapper, wrap", "_textwrap.py"), ("left_justify", "rendering.py")], observe=["rendering.left_justify"])
p("C32", "Output format and placements change nothing but the links and their lists",
  "A document without links and images has the same output in every output format and with every placement of links and images. For one with links, the text in front of the list is the same in a gophermap as in text output with the same placements (tabs apart), and the same whatever the links' targets and titles, the gopher host and the port are; placing the lists after blocks adds the lists (and blank lines around them) and moves or changes nothing else, and the menu lines are the same ones wherever they are placed.",
  ["inputs", "configurations"], "all documents and texts, all pairs of configurations",
  "Tests compare single outputs with literals; none compares two configurations.",
  [PA, R], [("GopherHTMLParser._append_links/_place_block_links/_indent_body", "_parser.py"), ("LinkRenderer, ImageRenderer, _MenuLineRenderer", "rendering.py")])
p("C33", "How the markup is spelt makes no difference",
  "Spellings of one document that HTML says are the same are converted to the same output: capital or small letters in names of elements and attributes, double, single or no quotes around values, white space and line breaks inside tags, the order of an element's attributes, the white space between class names, a slash at the end of a void element, leaving out the end tags at the very end of the document, comments, doctype declarations and processing instructions anywhere between texts and tags, and character references (decimal, hexadecimal or by name) in place of characters, in texts and in values.",
  ["inputs"], "all documents and every choice of spellings",
  "The test documents are all in one spelling: small letters, double quotes, no references.",
  [PA, S], [("handle_starttag, handle_endtag, handle_data", "_parser.py"), ("DataParser, TagParser", "_parser.py")])
p("C34", "Elements are rendered the same whatever stands before and after them",
  "The output of a sequence of complete elements at the top of a document, or in a div or an element without a rule, is the sequence of the outputs of each of them converted alone (link numbers, and rules that refer to siblings, apart); white space in the source between blocks makes no difference. In a list or definition list, an item's lines are the same whatever its siblings contain, but for the number and for the blank lines between items. (A block without margins does not end its line: text directly after one is not claimed.)",
  ["inputs", "histories"], "all sequences of elements and texts",
  "Tests convert single elements; state that leaks from one element to the next, or to all later ones, does not show there.",
  [PA, R], [("GopherHTMLParser.close, _prune_whitespace", "_parser.py"), ("TagParser.render", "_parser.py"), ("BlockRenderer.render, ListItemRenderer", "rendering.py")])
p("C35", "Settings have the same effect however they are given",
  "A setting of a renderer has the same effect whether it stands in the settings of a subclass (its own, those of a farther ancestor, or assigned to them after the class was made), in the rule that names the renderer, in another matching rule that names none, spread over several of these, in a rule with several selectors, in a tuple or a list, in a dict or a settings dictionary of any order of keys, or with the default renderer for elements without a rule; for renderers of extracted links as for all others. Assigning to a subclass's settings leaves its base classes as they were.",
  ["configurations", "inputs"], "all settings of all renderers, all ways of giving them, all texts",
  "Tests give settings in one way, in the rule.",
  [PA, R], [("RendererMap.get_for_tag, TagParser.assign_renderer, LinkParser.assign_renderer", "_parser.py"), ("_RendererMeta, Renderer.__new__, Renderer._adjust_settings", "rendering.py")])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
