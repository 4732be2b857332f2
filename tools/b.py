import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/bin')
import simlib
for p in sys.argv[1:]:
    try: print(simlib.build(p))
    except Exception as e: print(e)
