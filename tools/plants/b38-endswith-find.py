prop='''S04'''
edits=[('amtl/am-string.h', '''    return first.size() >= second.size() &&
           first.substr(first.size() - second.size(), second.size()) == second;''', '''    return first.size() >= second.size() &&
           first.find(second) == first.size() - second.size();''')]
needs='''a suffix that also occurs earlier in the text'''
breaks='''EndsWith is false when the suffix also occurs earlier.'''
demo='''
#include <amtl/am-string.h>
int main() { return !ke::EndsWith("abab", "ab"); }
'''
