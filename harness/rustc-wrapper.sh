#!/bin/sh
# Turns the hooks in backpak's own crates on, and nothing else.
for a; do
  if [ "$p" = --crate-name ]; then
    case "$a" in backpak|backpak_b2) exec "$@" --cfg vp_hooks ;; esac
    break
  fi
  p=$a
done
exec "$@"
