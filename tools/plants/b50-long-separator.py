prop='S03'
edits=[('amtl/am-string.h', '''        cursor = match + split_len;''', '''        cursor = match + (split_len & 15 ? split_len & 15 : split_len);''')]
needs='''a separator of more than sixteen characters'''
breaks='''The rest of the separator is taken for a part of the next piece.'''
demo='''
#include <amtl/am-string.h>
int main() {
    const char* sep = "<-- the next piece -->";
    std::string text = std::string("one") + sep + "two" + sep + "three";
    auto v = ke::Split(text, sep);
    return v.size() != 3 || v[1] != "two" || v[2] != "three" || ke::Join(v, sep) != text;
}
'''
