#!/usr/bin/env python3
# writes known-findings.txt; commits are named by their subject and looked up in /repo
import subprocess, os
FIXED = [
 ("C03","do not cache the results of failed computations","after a failed request the same request was answered 200 with an empty body"),
 ("C02","give every kind of cached value its own key space","a folder, a network and a fact whose names coincide were served each other's cached answer"),
 ("C01","stop sharing error variables between goroutines when loading inline documents","goroutines loading an inline document wrote one shared error variable"),
 ("C01","collect the results of concurrent grid building separately","goroutines building grids wrote shared error and result variables"),
 ("C06","render networks when the entity has no registered name","networks of an entity without a registered name could not be requested"),
 ("C05","number footnotes in order of appearance","footnote numbers differed from one computation to the next"),
 ("C13","show labels whose language is plain English","labels with language en were left out"),
 ("C13","keep the languages of every label when merging labels","merging labels of several linkbases lost languages"),
 ("C09","look the denominator of a ratio unit up by its own name","ratio units were shown with the numerator's namespace for the denominator"),
 ("C12","read closed and usable as declared on dimensional arcs","closed and usable were shown wrongly"),
 ("C12","resolve the target of a dimensional arc in its own link","arc targets were resolved in another link"),
 ("C12","resolve effective dimensions in their own definition linkbase","effective dimensions were taken from another linkbase"),
 ("C12","list only a dimension's own domain among its effective members","effective members listed members of other dimensions' domains"),
 ("C05","render linkbases, calculations and languages in a fixed order","order of calculations, linkbases and languages followed map iteration"),
 ("C04","skip facts whose context does not exist","a fact with a dangling contextRef ended the process"),
 ("C04","answer fact requests for folders without an inline document","a fact request for a folder without inline document ended the request in a panic"),
 ("C23","head a single fact by the typed dimensions of its own context only","single-fact answers were headed by typed dimensions of other contexts"),
 ("C04","skip contexts without an entity","a context without entity ended the process"),
 ("C04","stop reading a typed member that cannot be understood","a typed member with an undeclared element ended the process"),
 ("C07","keep the other headings when a typed member has no simple value","headings were lost next to a structured typed member"),
 ("C07","tell scenario members from segment members in column headings","scenario members were headed as segment members"),
 ("C07","head every typed dimension by its own name","typed dimensions shared one heading"),
 ("C07","leave out only the typed dimension that has no members","all typed dimensions were left out with one that has no members"),
 ("C14","find all footnotes of a fact","only the footnotes of one arc were found"),
 ("C21","ignore whitespace around names, dates, identifiers and numbers","members, measures, dates and numbers surrounded by white space were not understood"),
 ("C27","do not take a namespace declaration for an attribute","a prefix named like an attribute hid that attribute"),
 ("C16","list roles declared anywhere in a schema's annotations","roles outside the first annotation were not listed"),
 ("C04","report an undecodable source document in folders with pictures","an undecodable source document in a folder with pictures ended the process"),
 ("C17","read every schema of a folder once","circular includes never ended"),
 ("C20","find the concepts of a namespace spread over several schemas","concepts of a namespace spread over schemas were not found by name"),
 ("C04","report global files that cannot be read","an unreadable global file ended the process"),
 ("C19","keep references inside the folder and the taxonomy store","references with .. and absolute paths read files outside the folder and the store"),
 ("C04","accept names without a prefix","a tagged fact whose name has no prefix ended the process"),
 ("C28","keep canonical prefixes distinct","two namespaces got the same canonical prefix"),
 ("C04","skip tagged facts without a name or context","a tagged fact without name or contextRef ended the process"),
 ("C28","give names of the default namespace the same canonical form","one expanded name had two canonical names"),
 ("C15","escape the text of text blocks","escaped markup in a text block came out as markup"),
 ("C04","bound the column span of text block cells","a large colspan exhausted memory"),
 ("C15","show the content of character data sections in text blocks","text in CDATA sections was lost"),
 ("C24","declare JSON answers as JSON","JSON answers were declared as text"),
 ("C10","order siblings by their own arcs","siblings were ordered by the arc of another parent"),
 ("C08","show the reported digits of numbers at every precision","digits were lost or added at high and low precisions"),
 ("C25","count the months of periods that do not follow the calendar","52- and 53-week years read as 11 or 13 months"),
 ("C11","show calculation weights in full","weights were cut to one decimal"),
 ("C13","announce the languages of typed domain labels","languages of labels shown on columns were not announced"),
 ("C26","show the facts of every line-item group in all languages of the network","languages of the cells depended on the order of line-item groups"),
 ("C21","keep the whole text of a typed member","the text of a typed member split by a comment or character data section lost all but its last piece"),
 ("C04","build text blocks without copying them for every token","a text block of a few hundred kilobytes took minutes"),
]
EXTRA = [("C10","take an arc without an order as being the first","arcs that state no order were dropped together with everything below them"),
 ("C12","list members that can be reached in several ways once instead of not at all","a member that can be reached in several ways emptied the effective domain"),
 ("C12","list the members of a domain that is part of another dimension's domain","the members below a domain that another dimension's domain contains were left out")]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines():
    h,s = l.split(" ",1)
    if s.startswith("fix: "): log[s[5:]] = h
exec(open(os.path.join(here,"tools","findings_extra.py")).read()) if os.path.exists(os.path.join(here,"tools","findings_extra.py")) else None
with open(os.path.join(here,"known-findings.txt"),"w") as f:
    f.write("# Defects of the code under test. 'known' entries are reported as KNOWN-FINDING and do not fail a check;\n# 'fixed' entries are a record and suppress nothing.\n")
    f.write("known: property=C16 roles 'http://company.example/role/A' titled '1 - Sheet' and 'http://company.example/role/A1' titled ' - Sheet' get the same address\n")
    used=set()
    for p,s,w in FIXED+EXTRA:
        f.write("fixed: property=%s %s %s\n"%(p,log[s],w)); used.add(s)
    missing=set(log)-used
    assert not missing, missing
