prop='''S03'''
edits=[('amtl/am-string.h', '        memcpy(iter, pieces[i].c_str(), pieces[i].size());', '        memcpy(iter, pieces[i].c_str(), strlen(pieces[i].c_str()));')]
needs='''joining a piece that holds a zero character'''
breaks='''Characters behind a zero character in a piece are lost when joining.'''
demo='''
#include <amtl/am-string.h>
int main() {
    std::vector<std::string> v{std::string("a\\0b", 3), "c"};
    return ke::Join(v, ",") != std::string("a\\0b,c", 5);
}
'''
