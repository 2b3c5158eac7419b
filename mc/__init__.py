"""Small explicit-state / stateless model checker for trichter/rf."""
