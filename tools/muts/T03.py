f='am-thread.h'
M=[
('V',f,'        SetThreadName(name.c_str());\n        callback();','        callback();\n        SetThreadName(name.c_str());'),
('V',f,'        SetThreadName(name.c_str());\n        callback();','        SetThreadName(name.c_str());'),
('V',f,'        SetThreadName(name.c_str());\n        callback();','        SetThreadName(name.c_str());\n        callback();\n        if (name.size() > 15) callback();'),
('V',f,'        SetThreadName(name.c_str());\n        callback();','        callback();'),
('V',f,[('[](const std::string& name, decltype(callback)&& callback)','[](const char* name, decltype(callback)&& callback)'),('SetThreadName(name.c_str())','SetThreadName(name)'),('std::move(fn), std::string(name), std::move(callback)','std::move(fn), name, std::move(callback)')]),
('V',f,'std::bind(std::forward<Function>(f), std::forward<Args>(args)...)','std::bind(std::forward<Function>(f), std::ref(args)...)'),
('V',f,'pthread_setname_np(pthread_self(), name);','pthread_setname_np(pthread_self(), "thread");'),
('V',f,'pthread_setname_np(thread->native_handle(), name);','pthread_setname_np(pthread_self(), name);'),
('V',f,'    auto callback = std::bind','    SetThreadName(name);\n    auto callback = std::bind'),
('V',f,'[](const std::string& name, decltype(callback)&& callback) -> void {\n        SetThreadName(name.c_str());\n        callback();\n    };','[&callback](const std::string& name, decltype(callback)&& other) -> void {\n        SetThreadName(name.c_str());\n        callback();\n    };'),
('Q',f,'[](const std::string& name, decltype(callback)&& callback)','[](std::string name, decltype(callback)&& callback)'),
('Q',f,'        SetThreadName(name.c_str());\n        callback();','        const char* n = name.c_str();\n        SetThreadName(n);\n        auto c = std::move(callback);\n        c();'),
('Q',f,'    return std::make_unique<std::thread>(std::move(fn), std::string(name), std::move(callback));','    std::string copy(name);\n    std::unique_ptr<std::thread> t(new std::thread(std::move(fn), std::move(copy), std::move(callback)));\n    return t;'),
]
