/* one report of each kind, with every section */
#define ACC "ocreval Accuracy Report Version 7.0\n-----------------------------------\n"
#define WAC "ocreval Word Accuracy Report Version 7.0\n----------------------------------------\n"
#define EDO "ocreval Edit Operation Report Version 7.0\n-----------------------------------------\n"
static const char AREP[] = ACC "      24   Characters\n       3   Errors\n   87.50%  Accuracy\n\n       1   Reject Characters\n       2   Suspect Markers\n       1   False Marks\n   12.50%  Characters Marked\n   95.83%  Accuracy After Correction\n\n     Ins    Subst      Del   Errors\n       1        0        1        2   Marked\n       0        1        0        1   Unmarked\n       1        1        1        3   Total\n\n   Count   Missed   %Right\n       4        1    75.00   ASCII Lowercase Letters\n      24        3    87.50   Total\n\n  Errors   Marked   Correct-Generated\n       2        1   {b}-{c}\n       1        0   {<\\n>}-{}\n\n   Count   Missed   %Right\n      12        0   100.00   {<\\n>}\n       3        0   100.00   {<}\n       3        1    66.67   {a}\n       2        1    50.00   {\xC3\xA9}\n       2        1    50.00   {\xE2\x97\x8C\xCC\x81}\n       2        1    50.00   {<200E>}\n";
static const char WREP[] = WAC "       8   Words\n       2   Misrecognized\n   75.00%  Accuracy\n\nStopwords\n   Count   Missed   %Right   Length\n       4        0   100.00     3\n       4        0   100.00 Total\n\nNon-stopwords\n   Count   Missed   %Right   Length\n       2        1    50.00     3\n       2        1    50.00    12\n       4        2    50.00 Total\n\nDistinct Non-stopwords\n   Count   Missed   %Right   Occurs\n       2        1    50.00     1\n       1        1     0.00   >10\n       3        2    33.33 Total\n\nPhrases\n   Count   Missed   %Right   Length\n       8        2    75.00     1\n       7        3    57.14     2\n\nStopwords\n   Count   Missed   %Right\n       4        0   100.00   the\n\nNon-stopwords\n   Count   Missed   %Right\n       3        1    66.67   cat\n       1        1     0.00   antediluvian\n";
static const char EREP[] = EDO "       3   Insertions\n       4   Deletions\n       7   Moves\n\nMoves\n   Count   Length\n       2        3\n       4       21\n       1      100\n";
static const char *BASE[3] = {AREP, WREP, EREP};
