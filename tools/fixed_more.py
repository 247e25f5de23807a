FIXED.update({
 'check the start-index of a subscript only once for calls': ('C13', 'the time to transpile nested subscripts doubled with every level (45 levels of len(s[...]) never ended)'),
 'reject break statements outside of loops': ('C07 C13', 'break in a switch outside a loop was accepted: the Batch converter panicked and the Bash script contained a break without a loop'),
})
FIXED.update({
 'create a new converter for every requested output type': ('C19 C14', 'tsh -t bash -t bash wrote the script twice into the output file'),
 'report if the output file could not be written': ('C19', 'tsh exited with 0 when the output could not be written (e.g. read-only directory)'),
 'reject options without a value': ('C19', 'a trailing option without a value was ignored'),
 'do not overwrite the input file': ('C19', 'tsh -i p.sh -o . -t bash replaced the input by the script'),
})
FIXED.update({
 'never call functions of the script as programs in Bash scripts': ('C18 C10', '@_sah(...) called the slice helper of the script instead of a program of that name'),
})
FIXED.update({
 'find an empty string in an empty string with strings.Index and never read behind the end': ('C15', 'strings.Index("", "") was -1, strings.Contains("", "") false'),
 'let strings.HasSuffix accept an empty suffix': ('C15', 'strings.HasSuffix("a", "") was false (CutSuffix("a", "") likewise)'),
 'let strings.Repeat return an empty string for a count of zero': ('C15', 'strings.Repeat("a", 0) was "a"'),
 'let strings.Replace leave the string unchanged for a count of zero': ('C15', 'strings.Replace("a", "", "x", 0) was "xa"'),
 'let strings.Cut cut an empty string at an empty separator': ('C15', 'strings.Cut("", "") reported false'),
 'let strings.Split return the last element': ('C15', 'strings.Split("a,", ",") had one element, strings.Split("a", "bc") none'),
})
FIXED.update({
 "jump to the current loop's labels in Batch (unique end labels, continue after a nested loop)": ('C05', 'two loops at the same depth shared the label :_e0, "continue" after a nested loop went on with that loop'),
 'print blanks, on and off literally in Batch': ('C05', 'print(" "), print("on") and print("off") printed the state of echo or switched it'),
 'compare slice indices as numbers in Batch and do not shorten a slice on assignment': ('C05', 's[10] = x on a slice of 9 or fewer elements compared "9" and "10" as strings; s[0] = x shortened a slice'),
 'a panic in a function ends the program in Batch': ('C05', 'the caller went on after a function had panicked'),
 'subscript of an empty string in Batch': ('C05', 'a subscript of an empty string gave the text of the substring expression'),
 'keep the result of copy in Batch': ('C05', 'the result of copy changed with the next length that was read'),
 'emit slice helpers in Batch only if they are used': ('C16', 'programs that only created or copied slices contained the assignment helper'),
 'do not shorten the destination of copy in Batch': ('C05', 'copying a shorter slice set the length of the destination to that of the source'),
})
FIXED.update({
 'insert quotes and percent signs of string literals safely in Batch': ('C16', 'a quote in a literal exposed the rest of its line (a following parenthesis closed the block), two percent signs on a line removed the text between them'),
 'quote the paths of read and write in Batch': ('C16', 'read("a)") inside a block closed the block'),
 'quote names and arguments of called programs in Batch': ('C16', '@echo(")") inside a block closed the block, @":x"() called a label'),
})
