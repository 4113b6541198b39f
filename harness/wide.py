""" Parts of checks with all that objects of each kind can contain """
import behave
import keymap
import runs
import trees


def replay(check, scale, quick=300, thorough=300):
    t = check.thorough
    behave.replay(
        check,
        trees.file_tree_specs(t, scale) + trees.dataset_tree_specs(t, scale)
        + keymap.specs(t, scale=scale) + runs.specs(t, scale),
        deadline=check.start + (thorough if t else quick))
