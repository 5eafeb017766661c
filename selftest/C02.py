L = "src/reactpy/core/layout.py"
CASES = [
    ("narrow except", "bug", [(L, "        except Exception as error:\n            logger.exception(f\"Failed to render", "        except (ValueError, TypeError) as error:\n            logger.exception(f\"Failed to render")]),
    ("render outside try", "bug", [(L, "        try:\n            raw_model = component.render()\n", "        raw_model = component.render()\n        try:\n")]),
    ("children outside", "bug", [(L, """            await self._render_model_children(
                exit_stack, old_state, new_state, [raw_model]
            )
        except Exception as error:""", "        except Exception as error:"), (L, "        finally:\n            await life_cycle_hook.affect_component_did_render()\n", "        finally:\n            await life_cycle_hook.affect_component_did_render()\n        await self._render_model_children(exit_stack, old_state, new_state, [raw_model])\n")]),
    ("not logged", "bug", [(L, '            logger.exception(f"Failed to render {component}")\n', "")]),
    ("leak", "bug", [(L, 'f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""', 'f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else f"{error}"')]),
    ("leak name", "bug", [(L, 'f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""', 'f"{type(error).__name__}: {error}"')]),
    ("inverted", "bug", [(L, 'f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""', 'f"{type(error).__name__}: {error}" if not REACTPY_DEBUG.current else ""')]),
    ("reraise in debug", "bug", [(L, '            logger.exception(f"Failed to render {component}")\n', '            logger.exception(f"Failed to render {component}")\n            if isinstance(error, RecursionError):\n                raise\n')]),
    ("keeps children", "bug", [(L, """            new_state.model.current = {
                "tagName": "",
                "error": (""", """            new_state.model.current = {
                **new_state.model.current,
                "error": (""")]),
    ("helper", "same", [(L, """                "error": (
                    f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""
                ),""", """                "error": self._error_text(error),"""), (L, "    async def _unmount_model_states(", "    def _error_text(self, error):\n        if not REACTPY_DEBUG.current:\n            return ''\n        return f'{type(error).__name__}: {error}'\n\n    async def _unmount_model_states(")]),
    ("precomputed", "same", [(L, """                "error": (
                    f"{type(error).__name__}: {error}" if REACTPY_DEBUG.current else ""
                ),""", """                "error": text if REACTPY_DEBUG.current else '',"""), (L, '            logger.exception(f"Failed to render {component}")\n', '            text = f"{type(error).__name__}: {error}"\n            logger.exception(f"Failed to render {component}")\n')]),
]
