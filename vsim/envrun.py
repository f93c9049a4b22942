"""Run a C13 session in a new interpreter (another hash seed)."""
import pickle
import sys

if __name__ == '__main__':
    with open(sys.argv[1], 'rb') as f:
        plan, env, root = pickle.load(f)
    import warm
    warm.load()
    from checks import c13
    out = c13.session(plan, env, root)
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f)
