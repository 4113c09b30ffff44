monitor(task_core LIBS Core)
monitor(task_then LIBS Core)
monitor(task_wait LIBS Core)
monitor(generators LIBS Core)
monitor(signals LIBS Core)
monitor(future LIBS Core QT Concurrent)
monitor(thread LIBS Core)
monitor(iodevice LIBS Core)
add_custom_command(OUTPUT ${CMAKE_BINARY_DIR}/vchild DEPENDS ${CMAKE_SOURCE_DIR}/harness/vchild.c
    COMMAND gcc -O1 -w -static -o ${CMAKE_BINARY_DIR}/vchild ${CMAKE_SOURCE_DIR}/harness/vchild.c)
add_custom_target(vchild_target DEPENDS ${CMAKE_BINARY_DIR}/vchild)
monitor(process LIBS Core)
target_compile_definitions(process PRIVATE VCHILD="${CMAKE_BINARY_DIR}/vchild")
add_dependencies(process vchild_target)
monitor(sockets LIBS Core Network QT Network)
monitor(reply LIBS Core Network QT Network)
monitor(websocket LIBS Core WebSockets QT Network WebSockets)
monitor(dbus LIBS Core DBus QT DBus)
monitor(qml LIBS Core Qml QT Qml)
monitor(image LIBS Core Qml Quick QT CorePrivate QmlPrivate GuiPrivate QuickPrivate Quick Gui)
monitor(testmacros LIBS Core Test QT Test)
monitor(threads LIBS Core)
monitor(threads_qt LIBS Core)
