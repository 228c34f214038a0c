"""setup: build the IR dumper and warm the IR cache"""
import lib
print(lib.build_tool())
try:
    lib.compile_repo()
except lib.AnalysisError as e:
    print("note:", e)
